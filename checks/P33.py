from vf import *
A = Target("support-asan", ["support.cpp"], "asan", opt="-O0", repo_srcs=LOGGING_SRCS, wraps=["getpwuid_r"])
CHECK = Check(
    "P33", targets=[A], runs=[Run("support-asan", "directories", 4000, 100000)],
    rule="Child processes with random environments (each variable unset, blank, or a directory), real and effective users with and without an entry in the user database, and a stand-in database that wants larger buffers, fails "
         "or has no entry, ask for the user's name, home and the application directories, and again after the environment has changed. References: the environment and the database as the harness reads them. "
         "A processor time limit tells calls that never return. Distinct cases are kinds of environment, user and database.",
    required=[("user names found", 1500), ("home directories found", 2500), ("home directories refused", 400), ("user database asked", 800), ("directories by variable", 2500), ("runtime directories created", 800),
              ("runtime directories found", 400), ("directories asked for again", 8000)],
    assumptions=["values of variables have no blanks at their ends", "the runtime directory below /tmp is not used, as it is outside the scratch directory"])
