3 0 2 2 4 6 6 3 0 5 3 0 0 2 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
