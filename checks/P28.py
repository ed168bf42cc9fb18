from vf import *
T = Target("process-asan", ["process.cpp"], "asan", wraps=["kill"])
CHECK = Check(
    "P28", targets=[T],
    runs=[Run("process-asan", "guards", 60000, 3000000), Run("process-asan", "guards-moved", 20000, 1000000)],
    rule="Random nested scopes with guards of both kinds that are cleared, changed, executed early (also with functions that throw), moved in and out, and left by return or exception; "
         "and histories of movable guards in containers. The calls are compared with a duty model. Distinct cases are scripts with their calls.",
    required=[("scopes", 50000), ("scopes left by an exception", 5000), ("early executions", 5000), ("early executions that threw", 1000), ("guards moved", 50000), ("guards left to the end", 20000)],
    assumptions=["a function that runs in a destructor does not throw"])
