5 1 5 2 4 3 10 3 1 1 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
