from vf import *
RUNNER = ["Balau/Testing/Reporters/SurefireTestReportGenerator.cpp"] + LOGGING_SRCS
A = Target("assertions-asan", ["assertions.cpp"], "asan", opt="-O0")
R = Target("runner-asan", ["runner.cpp"], "asan", opt="-O0", repo_srcs=RUNNER, wraps=["shm_open"])
T = Target("runner-tsan", ["runner.cpp"], "tsan", opt="-O0", repo_srcs=RUNNER, wraps=["shm_open"])
CHECK = Check(
    "P25", targets=[A, R, T],
    runs=[Run("assertions-asan", "assertions", 40000, 800000), Run("runner-asan", "runner", 900, 12000, case_timeout=120),
          Run("runner-tsan", "threads", 250, 4000, case_timeout=120)],
    rule="Every run is a process of its own with a random plan of groups and tests (passing, failing, throwing, ignored, and in isolated models raising signals, exiting, terminating; failing "
         "setups and teardowns; long messages), models, concurrency, selections and reports. The tests record their executions in shared memory; the output lines, totals, lists, report files, "
         "generator calls and the exit code are compared with them. Assertions: random values of many types against each matcher in every form. Distinct cases are fates of tests per model, and matchers with outcomes.",
    required=[("assertions that hold", 10000), ("assertions that do not hold", 10000), ("long texts", 5), ("test runs with SingleThreaded", 60), ("test runs with WorkerThreads", 200),
              ("test runs with WorkerProcesses", 150), ("test runs with ProcessPerTest", 150), ("tests that bring their process down", 200), ("tests that fail", 2000), ("tests that pass", 3000),
              ("tests of other models", 300), ("tests not selected", 300), ("long messages of failures", 100), ("report files", 500), ("groups given to generators", 500),
              ("test runs with concurrent tests", 50), ("further writers compared", 60)],
    assumptions=["children are brought down only by their own tests, not from outside while they report a result", "test names are identifiers"])
