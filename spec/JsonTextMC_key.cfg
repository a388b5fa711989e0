CONSTANTS
Alphabet = {"xu","xn","qt","co","sl","st","nl","z0","rc", "cm"}
N = 5
WithComments = TRUE
PrefixName = "key"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE

