2 0 4 2 2 2 4 1 0 1 1.5 0 0 0 1 DATA 0 0
