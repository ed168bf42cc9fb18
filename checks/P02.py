from vf import *
CHECK = Check(
    "P02",
    targets=[Target("queues-asan", ["queues.cpp"], "asan", wraps=INJECT_WRAPS),
             Target("queues-tsan", ["queues.cpp"], "tsan", wraps=INJECT_WRAPS)],
    runs=[Run("queues-asan", "sq-history", 8000, 200000),
          Run("queues-tsan", "sq-history", 3000, 60000),
          Run("queues-asan", "sq-stress", 160, 4000),
          Run("queues-tsan", "sq-stress", 80, 2000)],
    rule="A case is a random program of concurrent put, take and emptiness queries under injected delays, followed by a drain. "
         "Its recorded history is non-trivial when operations of different threads overlapped; distinct ones are counted by "
         "the order of all invocations and responses with values.",
    required=[("histories with overlap", 500), ("stress objects", 1000), ("dequeues refused (empty)", 20)],
    assumptions=["histories are bounded to about 40 operations"],
)
