5 0 1 2 4 12 8 1 0 3 2.5 0 0 2 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
