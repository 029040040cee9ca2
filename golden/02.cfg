4 0 1 1 4 4 2 1 2 3 2.5 0 0 1 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
