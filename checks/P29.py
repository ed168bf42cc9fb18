from vf import *
T = Target("print-asan", ["print.cpp"], "asan")
CHECK = Check(
    "P29", targets=[T],
    runs=[Run("print-asan", "values", 20000, 1000000), Run("print-asan", "dumps", 10000, 500000), Run("print-asan", "durations", 10000, 500000), Run("print-asan", "formats", 10000, 500000)],
    rule="Random and boundary values of all numeric types, bytes with line and group sizes, durations of several units and representations, and time points and durations in random formats. "
         "Printed numbers are read back and compared with the value within half a unit of the last place; times are compared with strftime; durations are parsed again. Distinct cases are values with their formats.",
    required=[("prefixed values", 200000), ("non-finite values", 1000), ("zeros", 1000), ("byte counts", 10000), ("notations", 50000), ("dumps", 50000), ("long durations printed", 50000),
              ("negative durations", 5000), ("times printed", 20000), ("durations parsed again", 20000)],
    assumptions=["years 1000 to 9999 and durations from zero to below 100 hours in formats: the bundled date library prints no sign for negative durations"])
