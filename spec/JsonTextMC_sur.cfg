CONSTANTS
Alphabet = {"d8","hc","xd","z0","bs","xu","qt"}
N = 12
WithComments = FALSE
PrefixName = "escape"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE
CONSTRAINT Escaping
