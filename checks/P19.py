from vf import *
T = Target("uri-asan", ["uri.cpp"], "asan", repo_srcs=["Balau/Network/Utilities/MimeTypes.cpp"])
CHECK = Check(
    "P19", targets=[T],
    runs=[Run("uri-asan", "kinds", 200000, 6000000), Run("uri-asan", "resolve", 150000, 4000000)],
    rule="Random URI texts of each scheme against the kind, path and text they must have, through unique, shared and cloned pointers; random relative, absolute "
         "and full texts resolved from files, directories, URLs, zip files and strings. Distinct cases are texts and pairs of texts.",
    required=[("URIs of kind Http", 1000), ("URIs of kind Https", 1000), ("URIs of kind File", 5000), ("URIs of kind ZipFile", 1000), ("relative URLs resolved", 5000), ("file paths resolved", 5000)],
    assumptions=["schemes other than file, http and https are not specified", "URLs are resolved without normalising the path, as the code's comments say"])
