4 0 2 1 3 2 4 1 0 4 1.5 0 0 3 1 DATA 0 0
