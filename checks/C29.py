"""C29: scheduled tasks run exactly when due."""
ID = "C29"
HARNESS = "c29"
WRAP = ("time",)
LEVEL = "exploration"
RULE = ("one case = 1-8 generated tasks (several times each, every hour, at start; week days; speed, pause, server and program commands), read through the options, and 1-12 checks of the scheduler under a simulated "
        "clock (minute by minute, gaps, steps forward and back, changes of the time zone), compared with a model; non-trivial when a task was due in a check other than the first one and those after a clock step")
QUICK, THOROUGH = 40000, 1500000
