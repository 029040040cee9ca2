4 1 7 1 3 3 10 1 1 2 2 0 0 1 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
