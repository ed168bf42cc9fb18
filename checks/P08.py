from vf import *
CHECK = Check(
    "P08", targets=[Target("containers-asan", ["containers.cpp"], "asan")],
    runs=[Run("containers-asan", "graph", 2500, 150000)],
    rule="A case is a random sequence of additions, removals and relationship changes; after each one every query (membership, direct "
         "dependencies, relation data, cycles, both orders, iteration) is compared with a set-based reference graph. Distinct cases "
         "are counted by operations and final graph.",
    required=[("graph operations", 20000), ("acyclic graphs ordered", 5000), ("cyclic graphs recognised", 2000), ("graph operations refused", 1000)],
    assumptions=["the data of a relationship that is added a second time is left unspecified"])
