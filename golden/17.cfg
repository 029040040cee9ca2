2 1 7 1 4 3 10 2 1 3 2 0 0 3 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
