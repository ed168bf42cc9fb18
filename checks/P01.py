from vf import *
CHECK = Check(
    "P01",
    targets=[Target("queues-asan", ["queues.cpp"], "asan", wraps=INJECT_WRAPS),
             Target("queues-tsan", ["queues.cpp"], "tsan", wraps=INJECT_WRAPS)],
    runs=[Run("queues-asan", "abq-history", 8000, 200000),
          Run("queues-tsan", "abq-history", 3000, 60000),
          Run("queues-asan", "abq-stress", 160, 4000),
          Run("queues-tsan", "abq-stress", 80, 2000)],
    rule="A case is a random producer/consumer program (capacity, threads, blocking/timed/refusing operations, callbacks, "
         "observers) run under injected delays and spurious wake-ups. Its recorded history is non-trivial when operations of "
         "different threads overlapped; distinct ones are counted by the order of all invocations and responses with values.",
    required=[("histories with overlap", 500), ("stress objects", 1000), ("enqueues that blocked", 20)],
    assumptions=["ThreadSanitizer sees the instrumented C++ of Balau and libstdc++ headers", "histories are bounded to about 40 operations"],
)
