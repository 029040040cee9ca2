4 1 7 4 4 3 10 0 1 4 2 0 0 0 2 DATA 0 0 WEIGHT_SPECTRUM 1 0
