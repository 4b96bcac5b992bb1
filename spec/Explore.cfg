INIT Init
NEXT Next
INVARIANT Checked
CHECK_DEADLOCK FALSE
