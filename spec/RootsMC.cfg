SPECIFICATION Spec
CONSTANT P = 7
INVARIANTS AtMostTwo AtMostOne Formula1 Formula2 FormulaTan TwoBranches Supplement Negative
CHECK_DEADLOCK FALSE
