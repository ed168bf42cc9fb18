from vf import *
CHECK = Check(
    "P21", targets=[Target("text-asan", ["text.cpp"], "asan")],
    runs=[Run("text-asan", "values", 40000, 1500000)],
    rule="A case converts one value and one refused text of each of thirteen arithmetic types, of bool, and of the character and string types, in a random "
         "encoding. Distinct cases are counted by type, text and encoding.",
    required=[("integers in range", 100000), ("integers out of range", 20000), ("texts that are no numbers", 100000), ("floating point values", 50000),
              ("other bases", 30000), ("booleans", 20000), ("strings converted", 20000), ("malformed characters refused", 2000)],
    assumptions=["leading white space and a leading plus sign are not specified and not tried", "texts whose value is smaller than the least positive floating point value are not tried"])
