// Solver build: the approximate nearest neighbour library is not encoded.
