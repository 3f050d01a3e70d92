SPECIFICATION GenSpec
CONSTANT Cases <- C_Cases
CHECK_DEADLOCK FALSE
