from vf import *
S = ["http.cpp", "http_server.cpp", "http_config.cpp"]
F = ['-DVF_REPO="%s"' % REPO]
A = Target("http-asan", S, "asan", opt="-O0", repo_srcs=LOGGING_SRCS, flags=F, libs=["-lssl", "-lcrypto"])
T = Target("http-tsan", S, "tsan", opt="-O0", repo_srcs=LOGGING_SRCS, flags=F, libs=["-lssl", "-lcrypto"])
CHECK = Check(
    "P31", targets=[A, T], runs=[Run("http-asan", "lifecycle", 900, 15000, case_timeout=120), Run("http-tsan", "lifecycle", 250, 4000, case_timeout=120)],
    rule="Random lives of servers with one worker to one per core: starts in the background and in the calling thread, repeated starts, stops, restarts, termination signals, ports in use, kept connections with complete and "
         "incomplete requests, as many requests at once as workers (which report their thread names), concurrent starts, stops and queries by several threads, destruction in every state. After every step the state, "
         "the answers, the threads, the kept connections and in the end the open descriptors are compared with a model; calls that never return are found by the lack of any activity. Distinct cases are histories.",
    required=[("started servers", 500), ("stopped servers", 400), ("synchronous starts", 120), ("signals", 40), ("ports in use", 60), ("concurrent starts and stops", 150), ("started twice", 150),
              ("concurrent requests of all the workers", 60), ("connections ended by a stop", 120), ("lives of servers", 900)],
    assumptions=["a server is not stopped from within its own handlers"])
