3 0 3 2 3 4 2 2 2 1 2.5 0 0 3 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
