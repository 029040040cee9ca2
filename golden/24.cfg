4 0 7 4 4 2 4 3 0 5 1.5 0 0 1 1 DATA 0 0
