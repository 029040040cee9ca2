4 0 3 4 2 8 12 3 1 3 1.5 0 0 0 1 DATA 0 0
