from vf import *
T = Target("archive-asan", ["archive.cpp"], "asan")
CHECK = Check(
    "P22", targets=[T],
    runs=[Run("archive-asan", "gzip", 4000, 200000, case_timeout=30), Run("archive-asan", "zip", 1500, 80000, case_timeout=30), Run("archive-asan", "damaged", 600, 30000, case_timeout=30), Run("archive-asan", "unopened", 200, 2000, case_timeout=30)],
    rule="gzip: random contents through all forms of both directions, also compressed by zlib with other levels, headers and members, then truncated or changed. zip: random transactions "
         "(put, directory, overwrite, rename, delete, comment; committed, abandoned or failing) on new archives and on archives made by LibZip with stored, encrypted and commented entries; "
         "after each one everything the library says about the archive, its resources and its iterators, and the file itself read by an independent reader, are compared with a map; damaged archives. "
         "Distinct cases are contents, histories and damaged files.",
    required=[("gzip contents expanded", 10000), ("damaged gzip refused", 5000), ("unopenable files refused", 3000), ("transactions committed", 1000), ("transactions abandoned", 300), ("failed commits", 50),
              ("zip entries read", 10000), ("zip entries iterated", 2000), ("archives read independently", 1000), ("wrong passwords refused", 300), ("directories renamed", 50), ("files renamed", 200),
              ("entries deleted", 500), ("damaged entries refused", 1000), ("damaged archives refused", 500), ("calls on closed archives refused", 3000)],
    assumptions=["names without surrounding blanks, comments that are UTF-8 without null characters and at most 65535 bytes long, and a non-empty resulting archive (LibZip removes an empty one)"])
