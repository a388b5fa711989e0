SPECIFICATION Spec
INVARIANT Printed
