4 0 7 1 3 8 12 0 1 1 1.5 0 0 0 1 DATA 0 0
