INIT Init
NEXT Next
VIEW View
INVARIANT Verdict
CHECK_DEADLOCK FALSE
