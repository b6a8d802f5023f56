"""C07: the connection pool respects limits, levels, groups and blocks."""
ID = "C07"
HARNESS = "c07"
WRAP = ("time",)
LEVEL = "exploration"
RULE = ("one case = 1-5 generated servers (level, group, connections, active, optional), a retry interval and 3-40 operations (get, free, block, clock change, activation change, "
        "closing, re-initialisation) under a simulated clock, checked against a model after each operation; non-trivial when a connection was handed out and there were at least 4 operations")
QUICK, THOROUGH = 1200000, 15000000
