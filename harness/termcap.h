/* the analysis needs nothing of the real one */
