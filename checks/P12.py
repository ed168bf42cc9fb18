from vf import *
A = Target("envconf-asan", ["envconf.cpp"], "asan", opt="-O0", repo_srcs=LOGGING_SRCS)
CHECK = Check(
    "P12", targets=[A],
    runs=[Run("envconf-asan", "cascades", 10000, 400000)],
    rule="Random type specifications (files with nested and relative includes, texts, declarations in code; all the built-in types, a registered value type and a registered polymorphic type; with and without "
         "default values; composites to depth 4; specifications repeated and merged) and random property sources (values at and beyond the limits of the types, ill-formed values, escaped names and values, line "
         "continuations, repeated and nested composites, missing sources) made into injectors by each of the constructors. Every name is then requested as every type from the root and from each composite, and the composites "
         "are iterated; all are compared with a reference of cascading, defaults and conversions, on first use, when the configuration is used again and together with another configuration, and the composites also "
         "after the injector is gone. Configurations that the reference refuses must be refused. Distinct cases are different documents.",
    required=[("injectors compared", 5000), ("values compared", 300000), ("composites compared", 20000), ("configurations used again", 2000), ("configurations combined", 1000), ("duplicates refused", 100),
              ("refused values", 200), ("refused unknown type", 200), ("refused incompatible specifications", 200), ("refused missing source", 60), ("includes", 4000), ("escapes", 50000), ("line continuations", 10000),
              ("configurations from texts", 800)],
    assumptions=["a value specification that replaces a composite one at the root, and an unusable default value that a source overrides, may be accepted or refused", "texts of the type char are one code point below U+0100",
                 "default values do not start with blanks", "locale C.UTF-8"])
