2 1 3 4 4 10 3 3 2 1 2 0 0 3 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
