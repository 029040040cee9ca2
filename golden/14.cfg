5 0 3 1 3 12 8 0 0 5 2.5 0 0 1 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
