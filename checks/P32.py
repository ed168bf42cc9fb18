from vf import *
S = ["http.cpp", "http_server.cpp", "http_config.cpp"]
F = ['-DVF_REPO="%s"' % REPO]
A = Target("http-asan", S, "asan", opt="-O0", repo_srcs=LOGGING_SRCS, flags=F, libs=["-lssl", "-lcrypto"])
CHECK = Check(
    "P32", targets=[A], runs=[Run("http-asan", "client", 3000, 60000, case_timeout=120)],
    rule="Clients made from hosts, URL texts, URL objects and by copying and moving, of both versions, send get, head and post requests with random paths and bodies to a raw server on a loopback address, which records the request "
         "and answers with a random status, fields and body, framed by a length, chunks or the end of the connection, in random pieces, or cut short, or malformed, or not at all. The recorded request and the returned "
         "response are compared with what was asked and answered. Distinct cases are kinds of client, request and response.",
    required=[("responses received", 4000), ("broken responses refused", 400), ("refused connections", 200), ("clients refused", 60)],
    assumptions=["HTTPS is not run", "one request per connection, as documented"])
