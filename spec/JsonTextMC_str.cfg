CONSTANTS
Alphabet = {"qt","bs","xu","xd","d8","hc","ct", "xn"}
N = 7
WithComments = FALSE
PrefixName = "none"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE
