SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NoFrontTwice
INVARIANT Bounded
INVARIANT OneAtATime
INVARIANT CopyIsOlder
