4 0 3 4 2 12 8 3 0 2 2.5 0 0 2 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
