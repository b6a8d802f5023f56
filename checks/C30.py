"""C30: traffic volumes and quotas are counted exactly."""
ID = "C30"
HARNESS = "c30"
WRAP = ("time",)
LEVEL = "exploration"
RULE = ("one case = a time zone, time correction, quotas and 2-60 operations (data received from one of three servers, clock moved on or set back, counters read, reset, saved and loaded, quota checked) under a "
        "simulated clock, compared with a list of all events; non-trivial when data was received and the clock moved on by at least a minute at once")
QUICK, THOROUGH = 50000, 2000000
