from vf import *
T = Target("res-asan", ["res.cpp"], "asan")
CHECK = Check(
    "P17", targets=[T],
    runs=[Run("res-asan", "contents", 4000, 200000), Run("res-asan", "unicode", 3000, 150000), Run("res-asan", "trees", 600, 30000), Run("res-asan", "http", 400, 20000)],
    rule="Random byte and Unicode contents with sizes around the stream buffers, written in random pieces through every kind of resource (also moved ones) and read back "
         "through every resource and utility, in a scratch directory; random directory trees; a loopback server for HTTP resources. Distinct cases are contents and tree shapes.",
    required=[("files read back", 1000), ("texts read back", 1000), ("trees walked", 200), ("entries seen", 5000), ("missing files refused", 1000), ("moved resources", 300), ("HTTP bodies read", 200)],
    assumptions=["a byte order mark at the start of a text is excluded: string and archive resources drop it, files keep it"])
