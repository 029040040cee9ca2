2 1 3 2 2 10 3 2 2 3 2 0 0 1 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
