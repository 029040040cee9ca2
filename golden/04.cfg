4 0 6 2 2 8 12 2 1 5 1.5 0 0 2 1 DATA 0 0
