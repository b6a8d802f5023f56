"""C09: queue, history, feed and statistics state survives save and reload."""
ID = "C09"
HARNESS = "c09"
LEVEL = "exploration"
RULE = ("one case = a generated queue (items, files, articles, article states, progress, file summary) with history, or feeds with their history, or server statistics, or an item log, "
        "written by DiskState and loaded into fresh objects, all attributes compared; non-trivial when there was something to save")
QUICK, THOROUGH = 60000, 600000
