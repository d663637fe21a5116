SPECIFICATION Spec
CONSTANTS Levels = {1, 2, 3, 4}
 Deg = "same"
 Refresh = "degree"
 Check = TRUE
 MaxBatch = 2
INVARIANT Fits
CHECK_DEADLOCK FALSE
