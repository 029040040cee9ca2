3 1 1 1 4 10 3 2 2 1 2 0 0 3 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
