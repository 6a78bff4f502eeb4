SPECIFICATION Spec
CONSTANTS TagSets <- TagsAB NodeBlocks <- NodesFew ElemBlocks <- ElemsFew
INVARIANT Good
CHECK_DEADLOCK FALSE
