3 0 5 2 3 6 6 2 0 4 3 0 0 2 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
