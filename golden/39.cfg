3 0 7 4 2 16 16 3 1 5 3 0 0 0 3 DATA 0 0 WEIGHT_SPECTRUM 1 1 CORRECTED_DATA 0 1
