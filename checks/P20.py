from vf import *
CHECK = Check(
    "P20", targets=[Target("text-asan", ["text.cpp"], "asan")],
    runs=[Run("text-asan", "strings", 40000, 1500000), Run("text-asan", "hostile", 60000, 2000000)],
    rule="A case is a random text with a piece that may occur in it, put through every utility in UTF-8 and UTF-32 and compared with the "
         "reference; or malformed bytes, which must stay within their allocation. Distinct cases are counted by text and piece.",
    required=[("texts", 30000), ("matches", 5000), ("mismatches", 3000), ("trimmed", 5000), ("splits into several", 5000),
              ("texts of several lines", 1000), ("malformed texts", 20000), ("equal ignoring case", 5000)],
    assumptions=["case mapping is ICU's simple mapping per code point", "a space is a code point of general category Z, as documented for isSpace",
                 "regular expressions are those of the standard library, tried with two simple expressions"])
