from vf import *
A = Target("logging-asan", ["logging.cpp"], "asan", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
CHECK = Check(
    "P16", targets=[A],
    runs=[Run("logging-asan", "render", 12000, 600000)],
    rule="Random message templates, parameter lists (fewer, as many and more than the placeholders; texts with any bytes, numbers, booleans) and formats, logged through all levels and call forms with "
         "the texts in allocations of exactly their size; each line is matched with a reference of the format and template. Distinct cases are formats with templates, parameter counts and call forms.",
    required=[("superfluous escapes", 2000), ("line continuations", 1000), ("messages", 100000), ("messages with missing parameters", 5000), ("messages with too many parameters", 5000), ("function messages", 10000), ("messages with location", 30000)],
    assumptions=["no two opening braces next to each other in a template", "times are in UTC"])
