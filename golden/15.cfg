4 0 3 4 2 16 16 0 1 1 3 0 0 2 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
