SPECIFICATION ParSpec
CONSTANT RecordOf <- Abstract
INVARIANTS AsAlone PoolUnchanged
CHECK_DEADLOCK FALSE
