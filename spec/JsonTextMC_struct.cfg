CONSTANTS
Alphabet = {"sp","lb","rb","lc","rc","cm","co","qt","z0"}
N = 6
WithComments = FALSE
PrefixName = "none"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE
