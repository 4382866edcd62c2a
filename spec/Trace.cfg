SPECIFICATION Spec
VIEW View
CONSTANT RecordOf <- FullRecord
CHECK_DEADLOCK FALSE
