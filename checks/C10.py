"""C10: a crash while saving never loses the previous state."""
ID = "C10"
HARNESS = "c10"
WRAP = ("fopen", "fopen64", "fclose", "fwrite", "fflush", "ferror", "rename", "remove", "unlink", "fsync", "fdatasync")
LEVEL = "exploration"
RULE = ("one case = 1-4 program runs with 1-6 saving operations each (queue, history, progress, file information, article states, feeds, statistics), the program being killed or the power lost at any "
        "file operation (also amid a write) or any operation failing once or for good, then loading and comparing with the states allowed; non-trivial when a fault took place")
QUICK, THOROUGH = 120000, 2000000
