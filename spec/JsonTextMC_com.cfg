CONSTANTS
Alphabet = {"sl","st","nl","z0","qt","lb","rb","cm"}
N = 6
WithComments = TRUE
PrefixName = "none"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE

