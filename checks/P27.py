from vf import *
T = Target("process-asan", ["process.cpp"], "asan", wraps=["kill"])
CHECK = Check(
    "P27", targets=[T],
    runs=[Run("process-asan", "fork", 3000, 60000, case_timeout=60)],
    rule="Populations of one to seven children per thread, in one to four threads, with random exit statuses and signals, held back by pipes, which are looked at, stopped, let go, "
         "waited for and terminated in random order; the system is asked about each child, without reaping it, for comparison. Distinct cases are fates and operation sequences.",
    required=[("children", 5000), ("reports checked", 5000), ("running children looked at", 5000), ("running children terminated", 500), ("waits for a running child", 300), ("waits refused", 1000), ("children stopped", 100), ("threads forking", 300)],
    assumptions=["the child's function does not throw", "no signal handler without SA_RESTART interrupts the waits"])
