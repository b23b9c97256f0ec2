SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT MaxName = 760
CHECK_DEADLOCK FALSE
INVARIANTS OwnText OwnName OneName Length ReadBack
