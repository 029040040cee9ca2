4 0 7 1 4 8 12 3 1 5 1.5 0 0 3 1 DATA 0 0
