"""C28: options are read, substituted, saved and reported faithfully."""
ID = "C28"
HARNESS = "c28"
LEVEL = "exploration"
RULE = ("one case = a configuration file of up to 25 lines (options in any letter case and order, repeated, with references to other options, quotes, unicode, invalid names, numbers and values, servers, categories, "
        "feeds, comments, CRLF) and up to 4 command-line options, and a list of options then saved through the API; every option in effect, the reported list, servers, feeds, categories and error messages are compared with a "
        "model, and saved options with what is loaded back; non-trivial with at least four lines")
QUICK, THOROUGH = 8000, 400000
