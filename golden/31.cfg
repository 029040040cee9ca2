4 0 6 2 4 16 16 2 1 2 3 0 0 2 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
