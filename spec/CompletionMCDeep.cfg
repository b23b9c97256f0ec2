SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decreasing Sound Done
CONSTANT Slack = 3
