5 0 1 4 3 12 8 2 0 1 2.5 0 0 3 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
