5 1 1 4 4 3 10 1 1 5 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
