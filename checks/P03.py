from vf import *
CHECK = Check(
    "P03",
    targets=[Target("concurrent-asan", ["concurrent.cpp"], "asan", wraps=INJECT_WRAPS),
             Target("concurrent-tsan", ["concurrent.cpp"], "tsan", wraps=INJECT_WRAPS)],
    runs=[Run("concurrent-asan", "semaphore", 3000, 60000), Run("concurrent-tsan", "semaphore", 1200, 30000),
          Run("concurrent-asan", "semaphore-lock", 1200, 20000), Run("concurrent-tsan", "semaphore-lock", 600, 12000),
          Run("concurrent-asan", "barrier", 2500, 50000), Run("concurrent-tsan", "barrier", 1200, 30000)],
    rule="A case is a program of threads incrementing and decrementing a semaphore, using it as a lock, or meeting repeatedly at a "
         "cyclic barrier (with reconfigurations), under injected delays and spurious wake-ups. Distinct cases are counted by the "
         "order in which the threads passed the observed points.",
    required=[("semaphore operations", 5000), ("guarded sections entered", 5000), ("barrier passages", 10000), ("barrier reconfigurations", 100)],
    assumptions=["a thread set with no scheduling activity for six seconds and no timed waits never continues"],
)
