from vf import *
A = Target("logging-asan", ["logging.cpp"], "asan", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
T = Target("logging-tsan", ["logging.cpp"], "tsan", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
CHECK = Check(
    "P14", targets=[A, T],
    runs=[Run("logging-asan", "concurrent", 300, 10000), Run("logging-tsan", "concurrent", 300, 10000),
          Run("logging-asan", "programs", 120, 2000), Run("logging-tsan", "programs", 120, 2000)],
    rule="Histories of threads that log identified messages of up to 20 kB through several loggers, by every call form, while other threads replace and reset the configuration (recorded streams, one shared "
         "file, formats), with injected delays: every stream is read back and each line is matched with its message for content, count, order within its thread, one whole format, level and allowed stream; and "
         "programs of threads that run under the default, a configured, a file and two broken configurations read at start, judged by what they left on stdout, stderr and in files. Distinct cases are sequences of configurations.",
    required=[("lines", 50000), ("messages that must arrive", 50000), ("messages that must not arrive", 1500), ("reconfigurations", 3000), ("file lines", 2000), ("programs", 200), ("program lines", 8000)]
             + [("programs of kind %d" % k, 15) for k in range(5)],
    assumptions=["registered stream schemes", "log files are not removed while they are open", "a message logged while its logger's configuration is replaced may have either configuration"])
