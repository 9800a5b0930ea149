SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RefsValid EnvValid MapsValid DepthValid
