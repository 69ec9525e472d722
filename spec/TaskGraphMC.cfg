CONSTANTS MaxOps = 4 Gen = FALSE Arities <- Ar
SPECIFICATION Spec
INVARIANTS Denotes ArityOK WellFormed Linear DecompOK
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
