from vf import *
T = Target("cmdline-asan", ["cmdline.cpp"], "asan")
CHECK = Check(
    "P13", targets=[T],
    runs=[Run("cmdline-asan", "parse", 60000, 3000000), Run("cmdline-asan", "hostile", 15000, 800000)],
    rule="Random option definitions, styles and final value settings with argument lists generated from a known meaning (or with one known fault), all queries and numeric conversions compared with it, "
         "on parsers used again, copied and moved, with arguments in allocations of exactly their size; help texts; hostile arguments. Distinct cases are definitions with argument lists.",
    required=[("command lines parsed", 30000), ("command lines refused", 10000), ("integers converted", 20000), ("integers refused", 50000), ("floats converted", 20000), ("floats refused", 20000), ("final values", 10000), ("help texts", 10000),
              ("hostile command lines parsed", 3000), ("hostile command lines refused", 10000)],
    assumptions=["values without surrounding blanks (they are trimmed)", "a space style command line that gives only options is accepted although a final value is required (help options rely on it)"])
