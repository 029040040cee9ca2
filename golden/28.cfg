5 0 5 2 3 8 12 1 1 4 1.5 0 0 3 1 DATA 0 0
