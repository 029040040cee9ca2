2 1 2 2 3 3 10 0 1 2 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
