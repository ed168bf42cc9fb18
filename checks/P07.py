from vf import *
CHECK = Check(
    "P07", targets=[Target("containers-asan", ["containers.cpp"], "asan")],
    runs=[Run("containers-asan", "trie", 16000, 400000)],
    rule="A case is a random sequence of trie operations; after each one the whole tree, both traversal orders, ancestors, child "
         "ranges and a set of path searches are compared with a reference tree. Distinct cases are counted by operations and final tree.",
    required=[("trie operations", 20000), ("cascades", 1000), ("trie searches that matched", 10000)],
    assumptions=["the reference tree in the harness follows the documented semantics"])
