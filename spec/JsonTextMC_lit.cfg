CONSTANTS
Alphabet = {"xt","xr","xu","xe","xf","xa","xl","xs","xn","sp", "lb", "rb"}
N = 6
WithComments = FALSE
PrefixName = "none"
INIT Init
NEXT Next
INVARIANTS Sound Viable Dead
CHECK_DEADLOCK FALSE

