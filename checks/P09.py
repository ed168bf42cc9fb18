from vf import *
CHECK = Check(
    "P09", targets=[Target("lang-asan", ["lang.cpp"], "asan")],
    runs=[Run("lang-asan", "parse", 24000, 600000), Run("lang-asan", "hostile", 24000, 600000)],
    rule="A case is a generated document with its expected tree, parsed, moved, visited, printed and parsed again; or a mutated or "
         "random byte string. Distinct cases are counted by text.",
    required=[("well-formed documents", 15000), ("line continuations", 5000), ("escapes", 50000), ("texts shorter than a small string", 100),
              ("hostile texts refused", 2000), ("invalid UTF-8 texts refused", 1000), ("hostile texts accepted", 2000)],
    assumptions=["the expected tree comes from the generator, which follows the documented format", "nesting depth up to 6"])
