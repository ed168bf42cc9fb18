from vf import *
S = ["http.cpp", "http_server.cpp", "http_config.cpp"]
F = ['-DVF_REPO="%s"' % REPO]
A = Target("http-asan", S, "asan", opt="-O0", repo_srcs=LOGGING_SRCS, flags=F, libs=["-lssl", "-lcrypto"])
T = Target("http-tsan", S, "tsan", opt="-O0", repo_srcs=LOGGING_SRCS, flags=F, libs=["-lssl", "-lcrypto"])
CHECK = Check(
    "P30", targets=[A, T],
    runs=[Run("http-asan", "requests", 1500, 25000, case_timeout=120), Run("http-asan", "configured", 900, 15000, case_timeout=120),
          Run("http-tsan", "requests", 250, 4000, case_timeout=120)],
    rule="Random sites of canned, failing, file serving, redirecting, echoing and throwing web applications, routed by method and path, made in code, from a document root alone, and by the injector from the text of an "
         "environment configuration, served by 1 to 4 workers to up to 6 clients on raw sockets of a loopback address: pipelined and fragmented requests of every method, both versions, kept, closed and half closed "
         "connections, bodies up to 800000 bytes with lengths and chunks, hostile and over-long paths, cookies of known, unknown and malformed sessions, malformed requests, clients that vanish within a request "
         "or before the response, and WebSocket conversations. Every response is compared with a reference of the site (which reads the files itself), every call of a handler is counted by the identity of its request, "
         "and the open descriptors are compared when the clients have gone and when the server has. Clients that wait for ever are found by the lack of any activity. Distinct cases are kinds of request and response.",
    required=[("requests answered as expected", 10000), ("pipelined requests", 4000), ("fragmented deliveries", 4000), ("requests handled once", 2000), ("answers: file", 500), ("answers: index", 200),
              ("answers: redirection", 200), ("answers: illegal path", 1000), ("answers: handler that throws", 500), ("malformed requests", 800), ("clients that vanish within a request", 800),
              ("clients that vanish before the response", 400), ("half closed connections", 300), ("sessions continued", 2000), ("sessions created", 2000), ("websocket messages", 200),
              ("configured servers", 400), ("duplicate locations refused", 60)],
    assumptions=["paths are taken literally (no percent decoding is judged)", "the e-mail web application, which needs libcurl, and HTTPS are not run", "handlers answer within their call", "no symbolic links in the document root",
                 "the texts of error responses are not judged"])
