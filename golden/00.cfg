4 0 6 4 2 2 4 0 0 1 1.5 0 0 1 1 DATA 0 0
