from vf import *
A = Target("ipc-asan", ["ipc.cpp"], "asan", wraps=INJECT_WRAPS + ["shm_open"])
T = Target("ipc-tsan", ["ipc.cpp"], "tsan", wraps=INJECT_WRAPS + ["shm_open"])
CHECK = Check(
    "P05", targets=[A, T],
    runs=[Run("ipc-asan", "queue-sequential", 4000, 100000, case_timeout=40), Run("ipc-asan", "queue-minimum", 200, 2000), Run("ipc-asan", "queue-parts", 8000, 200000),
          Run("ipc-asan", "queue-threads", 900, 15000), Run("ipc-tsan", "queue-threads", 500, 8000), Run("ipc-asan", "queue-processes", 700, 10000)],
    rule="Random histories of one thread against an exact model (priorities, sizes around the buffer size, queues opened again by name); real parts of several senders handed over in random "
         "interleavings between dequeues; and sending and receiving threads and processes under injected delays. Distinct cases are interleavings of parts, and orders of reception.",
    required=[("objects received", 20000), ("objects in parts", 3000), ("dequeues given up", 1000), ("timed enqueues given up", 200), ("oversize refused", 300), ("processes", 500)],
    assumptions=["oversize objects are dequeued by one thread of one process, as documented", "processes with no scheduling activity for six seconds and no timed waits never continue"])
