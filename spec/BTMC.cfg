SPECIFICATION Spec
CONSTANTS Family = 1
 MaxTicks = 2
VIEW View
INVARIANTS StackIsPath OpenIffRunning OpenedBounds Truth Statistics CostsAreSums
CHECK_DEADLOCK FALSE
