SPECIFICATION Spec
CONSTANTS TagSets <- TagsAB NodeBlocks <- NodesMany ElemBlocks <- ElemsMany
INVARIANT Good
CHECK_DEADLOCK FALSE
