2 0 7 1 2 12 8 3 0 4 2.5 0 0 3 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
