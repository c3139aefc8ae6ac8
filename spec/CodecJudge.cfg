SPECIFICATION JSpec
CHECK_DEADLOCK FALSE
INVARIANT Judge
