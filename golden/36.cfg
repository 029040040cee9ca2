5 0 3 4 3 8 12 2 1 2 1.5 0 0 0 1 DATA 0 0
