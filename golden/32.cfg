4 0 1 1 4 2 4 0 0 3 1.5 0 0 2 1 DATA 0 0
