2 0 7 1 2 16 16 1 1 4 3 0 0 0 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
