SPECIFICATION Spec
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
INVARIANTS Laws Ordered Orbits
