CONSTANTS
Alphabet = {"mi","pl","dt","z0","d1","xe", "cm", "lb", "rb"}
N = 7
WithComments = FALSE
PrefixName = "none"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE
