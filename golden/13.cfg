4 1 3 2 2 10 3 3 2 4 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
