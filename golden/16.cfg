4 0 4 2 4 2 4 2 0 2 1.5 0 0 1 1 DATA 0 0
