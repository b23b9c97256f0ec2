SPECIFICATION Spec
CONSTANT MaxLen = 3
CONSTANT MaxName = 1500
CHECK_DEADLOCK FALSE
INVARIANTS OwnText OwnName OneName Length ReadBack
