from vf import *
A = Target("logging-asan", ["logging.cpp"], "asan", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
CHECK = Check(
    "P15", targets=[A],
    runs=[Run("logging-asan", "tree", 4000, 150000), Run("logging-asan", "lock", 400, 6000)],
    rule="Histories of random configurations (namespaces, option subsets, repeated blocks, placeholders, included files), refused configurations and resets, after each of which loggers obtained before and "
         "after it are compared with a reference: level, queries, configuration text, and what a message of each level writes where; and locked configurations. Distinct cases are configuration texts.",
    required=[("configurations", 3000), ("refused configurations", 1500), ("loggers checked", 20000), ("enabled messages", 50000), ("disabled messages", 10000), ("file streams", 1000), ("standard streams", 5000),
              ("recorded streams", 10000), ("included files", 300), ("configurations with placeholders", 500), ("locked configurations", 300)],
    assumptions=["namespaces of the documented syntax", "registered stream schemes", "placeholder values that do not contain placeholders"])
