from vf import *
T = Target("uri-asan", ["uri.cpp"], "asan", repo_srcs=["Balau/Network/Utilities/MimeTypes.cpp"])
CHECK = Check(
    "P26", targets=[T],
    runs=[Run("uri-asan", "decode", 200000, 20000000), Run("uri-asan", "parameters", 60000, 4000000), Run("uri-asan", "mime", 3000, 200000)],
    rule="Random texts of escapes (well-formed, cut off, not hexadecimal, not UTF-8), plus signs and plain characters in exactly sized memory, decoded with "
         "every combination of options and compared with a reference decoder; random parameter lists; random paths against random extension tables.",
    required=[("texts decoded", 50000), ("texts refused", 10000), ("parameter lists split", 20000), ("parameter lists refused", 1000), ("media types looked up", 20000)],
    assumptions=["a malformed escape takes the percent sign and up to two characters after it, as the code does; the documentation does not say"])
