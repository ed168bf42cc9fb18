from vf import *
A = Target("support-asan", ["support.cpp"], "asan", opt="-O0", repo_srcs=LOGGING_SRCS, wraps=["getpwuid_r"])
CHECK = Check(
    "P34", targets=[A],
    runs=[Run("support-asan", "random", 3000, 100000), Run("support-asan", "identifiers", 800, 20000), Run("support-asan", "collections", 3000, 100000), Run("support-asan", "ports", 1500, 20000), Run("support-asan", "endpoints", 1500, 100000)],
    rule="Random ranges of every uniform generator, with limits of the types, negative, equal and huge bounds; identifiers made by threads and processes at once; containers, streams, exceptions and clocks against "
         "the standard library; ranges of ports that the harness holds in part; endpoint texts against inet_pton. Distinct cases are kinds of ranges, collections and numbers of processes.",
    required=[("random numbers", 3000000), ("small ranges", 1500), ("identifiers", 50000), ("processes making identifiers", 300), ("collections", 2500), ("empty streams consumed", 500), ("directories refused", 5000), ("exceptions", 2500),
              ("free ports found", 500), ("no free port", 200), ("attempts repeated", 300), ("attempts exhausted", 300), ("IPv4 endpoints", 5000), ("IPv6 endpoints", 5000), ("broken endpoints refused", 10000)],
    assumptions=["real ranges are subject to rounding by one unit of the last place", "real ranges whose width is not representable are not used"])
