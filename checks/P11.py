from vf import *
A = Target("injector-asan", ["injector.cpp"], "asan", opt="-O0", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
T = Target("injector-tsan", ["injector.cpp"], "tsan", opt="-O0", repo_srcs=LOGGING_SRCS, wraps=INJECT_WRAPS)
CHECK = Check(
    "P11", targets=[A, T],
    runs=[Run("injector-asan", "graphs", 3000, 60000), Run("injector-asan", "threads", 1500, 20000), Run("injector-tsan", "threads", 1500, 20000)],
    rule="Random sets of bindings (all forms of the configuration calls, over twelve kinds of key and five names, with missing, duplicate and cyclic ones) make up to five injectors "
         "(root, child, child of a prototype, a second one of the same configuration), nested configurations and callbacks included. Every kind of request, with and without a default, is answered "
         "and compared with a reference resolver; each object has a life record that tells the binding, thread and deleter that made and ended it. In threads mode several threads request the same "
         "bindings at once, through delays, while injectors are replaced. Distinct cases are distinct sets of levels and requests.",
    required=[("requests with a default that is not needed", 1000), ("injectors", 5000), ("requests", 50000), ("child injectors", 1000), ("children of a prototype", 200), ("configurations used again", 300), ("eager singletons", 2000),
              ("refused duplicate", 100), ("refused missing", 100), ("refused cycle", 40), ("refused shared injector", 20), ("validations accepted", 500), ("validations refused", 100),
              ("constructors that threw", 50), ("callbacks", 10000), ("static singletons", 300), ("bindings looked up", 50000), ("iterations", 1000), ("requests without a binding", 2000),
              ("concurrent requests", 50000), ("rounds", 2000), ("objects that outlive the injector", 10000), ("requested weak<const A>", 500), ("requested unique<A,D>", 1000), ("requested const A&", 500)],
    assumptions=["no object keeps a strong reference to the injector that keeps the object", "constructors may throw but do not call the injector again",
                 "prototype-created children do not run their prototype's callbacks (not judged)"])
