5 0 2 4 3 6 6 1 0 4 3 0 0 0 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
