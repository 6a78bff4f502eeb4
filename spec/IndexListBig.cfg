SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 1 MaxLen = 2 MaxObj = 2 MaxCon = 3 MaxOps = 6
INVARIANTS Refines ConRefines Aligned OneBlock
PROPERTIES DefaultGood MergeGood
CHECK_DEADLOCK FALSE
