CONSTANT CAP = 6
SPECIFICATION Spec
INVARIANTS Protocol Unambiguous ReadBack Distinct AnyOrder Positional Missing OneTag
CHECK_DEADLOCK FALSE
