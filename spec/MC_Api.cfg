SPECIFICATION Spec
CONSTANT RecordOf <- Abstract
INVARIANTS LoadsRight OnlyAccepted OthersUnchanged ResultsRight
PROPERTIES Frozen QueriesPure
CHECK_DEADLOCK FALSE
