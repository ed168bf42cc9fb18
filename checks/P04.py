from vf import *
CHECK = Check(
    "P04",
    targets=[Target("concurrent-asan", ["concurrent.cpp"], "asan", wraps=INJECT_WRAPS),
             Target("concurrent-tsan", ["concurrent.cpp"], "tsan", wraps=INJECT_WRAPS)],
    runs=[Run("concurrent-asan", "once", 4000, 80000), Run("concurrent-tsan", "once", 1500, 30000),
          Run("concurrent-asan", "lazy", 4000, 80000), Run("concurrent-tsan", "lazy", 2000, 40000),
          Run("concurrent-asan", "per-thread", 1500, 30000), Run("concurrent-tsan", "per-thread", 800, 15000)],
    rule="A case lets several threads race on one executor, lazy value or set of per-thread instances, with code that is delayed "
         "or fails the first times. Distinct cases are counted by the order in which calls of different threads returned.",
    required=[("executor calls", 5000), ("executor calls that threw", 200), ("lazy value calls", 5000), ("per-thread instances", 2000), ("replaced sets of per-thread instances", 500)],
    assumptions=["ThreadSanitizer does not model stand-alone fences, so data published by the single time executor is checked by value, not by the race detector"],
)
