from vf import *
CHECK = Check(
    "P24", targets=[Target("text-asan", ["text.cpp"], "asan")],
    runs=[Run("text-asan", "characters", 274, 274), Run("text-asan", "bytes", 300000, 20000000)],
    rule="Every code point (and 8192 values beyond) is classified, mapped, encoded and decoded; random nearly valid byte strings are walked in both "
         "directions. Distinct cases are blocks of code points and byte strings.",
    required=[("code points classified", 1114112), ("code points coded", 1112064), ("malformed texts walked", 50000), ("valid texts walked", 20000)],
    assumptions=["the categories of the linked ICU library are right", "isHexDigit is specified for ASCII only (the documentation and the tests disagree beyond)"])
