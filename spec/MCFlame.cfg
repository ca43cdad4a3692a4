SPECIFICATION Spec
INVARIANTS FlameIffAbove NoFlameIsZero
PROPERTY Terminates
CHECK_DEADLOCK FALSE
