INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
VIEW View
