from vf import *
T = Target("uri-asan", ["uri.cpp"], "asan", repo_srcs=["Balau/Network/Utilities/MimeTypes.cpp"])
CHECK = Check(
    "P18", targets=[T],
    runs=[Run("uri-asan", "generated", 60000, 6000000), Run("uri-asan", "hostile", 120000, 12000000), Run("uri-asan", "normalize", 60000, 4000000)],
    rule="Random URIs with known components (every subset of components, boundary ports, bracketed hosts, Unicode), the same with one change that "
         "makes them invalid, random and mutated bytes in exactly sized memory, random paths. Distinct cases are texts.",
    required=[("valid URIs split", 30000), ("invalid URIs refused", 30000), ("hostile texts compared with the generic grammar", 10000), ("paths normalised", 30000)],
    assumptions=["a scheme may contain letters beyond ASCII (the grammar allows ASCII only; the code's documentation says letters)",
                 "authorities with more than one @, and hostile bracketed hosts, are judged for memory safety only"])
