2 1 2 1 4 10 3 1 2 5 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
