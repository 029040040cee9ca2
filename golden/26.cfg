4 0 7 1 3 4 2 0 2 2 2.5 0 0 0 3 WEIGHT_SPECTRUM 1 0 DATA 0 0 MODEL_DATA 0 0
