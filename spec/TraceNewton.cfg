SPECIFICATION Spec
CONSTANT Props <- PropsFromEnv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
