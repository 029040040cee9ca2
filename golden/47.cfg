2 0 5 1 2 16 16 0 1 3 3 0 0 3 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
