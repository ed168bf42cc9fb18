from vf import *
CHECK = Check(
    "P10", targets=[Target("lang-asan", ["lang.cpp"], "asan")],
    runs=[Run("lang-asan", "scan", 20000, 500000)],
    rule="A case is a text scanned by the property scanner or by a scanner with comment and literal tokens, its tokens and code spans compared "
         "with an independent line and column count, then a random walk of gets, marks, put-backs and resets against an index into the token "
         "list. Distinct cases are counted by text and walk.",
    required=[("spans compared", 100000), ("put back to mark", 2000), ("resets", 2000), ("tokens read after movements", 50000)],
    assumptions=["columns are counted in bytes, as the code does", "line breaks are matched greedily, as documented"])
