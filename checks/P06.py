from vf import *
A = Target("ipc-asan", ["ipc.cpp"], "asan", wraps=INJECT_WRAPS + ["shm_open"])
CHECK = Check(
    "P06", targets=[A],
    runs=[Run("ipc-asan", "objects-managed", 1500, 30000), Run("ipc-asan", "objects-unmanaged", 1500, 30000), Run("ipc-asan", "objects-together", 800, 10000)],
    rule="Random histories of creation, opening, change, move, destruction and child processes (which inherit instances, end or are killed) over three names, all instances, and the names in "
         "shared memory, being compared with a model after every step; and races of processes that open or create. Distinct cases are operation sequences.",
    required=[("states compared", 10000), ("child processes", 1000), ("instances destroyed", 500), ("instances moved", 500), ("missing objects refused", 500), ("processes", 500)],
    assumptions=["names are created anew only when no live instance owns them"])
