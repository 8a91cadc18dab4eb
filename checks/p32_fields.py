"""P32: operations on fields (the C++ API)."""
import glob
import os
import re

import build as B

PROPERTY = "P32"
LEVEL = "model_checking"
RULE = ("an operation on fields does what the operation does for the arrays, scalars and literals the fields contain, returns a field with an array (of the element type of the operation) "
        "if one of these is an array and a scalar otherwise, and raises an exception for combinations of fields the operation is not defined for; whatever the order of the tasks")
BOUND = {"quick": "all combinations of 3 kinds of fields and 3 element types for each argument of each operation and operator; arrays of 2x3 in 1-4 partitions on 1-2 localities; combinations the operation "
                  "is defined for with all schedules with 1 deviation; rasters with all of GDAL's data types",
         "thorough": "2 deviations; 3 localities"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here",
               "the API is configured for the element types uint8, int32 and float64"]

ELEMENTS = ["std::uint8_t", "std::int32_t", "double"]
API = B.REPO + "/source/framework/api/cxx"


def expand(text):
    """What the framework's own build does with the API's templates."""
    def loop(match):
        name, body = match.groups()
        result = ""
        for i, e in enumerate(ELEMENTS):
            last = i == len(ELEMENTS) - 1
            part = re.sub(r"\{\{-?\s*%s\s*-?\}\}" % name, e, body)
            part = re.sub(r"\{\{-?\s*([\"'])(.*?)\1 if not loop.last else ([\"'])(.*?)\3\s*-?\}\}", lambda m: m.group(4 if last else 2), part)
            result += re.sub(r"\{%-?\s*if not loop.last\s*-?%\}(.*?)\{%-?\s*endif\s*-?%\}", "" if last else r"\1", part, flags=re.S)
        return result
    text = re.sub(r"\{#.*?#\}", "", text, flags=re.S)
    text = re.sub(r"\{%-?\s*for (\w+) in Elements\s*-?%\}(.*?)\{%-?\s*endfor\s*-?%\}", loop, text, flags=re.S)
    for name, value in (('Elements | join(", ")', ", ".join(ELEMENTS)), ("BooleanElement", "std::uint8_t"), ("FlowDirectionElement", "std::uint8_t")):
        text = re.sub(r"\{\{-?\s*%s\s*-?\}\}" % re.escape(name), value, text)
    return text


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def build():
    gen = os.path.join(B.BUILD, "apigen")
    offset = "lue/framework/api/cxx"
    for path in glob.glob("%s/include/%s/*.hpp.in" % (API, offset)):
        put(os.path.join(gen, offset, os.path.basename(path)[:-3]), expand(open(path).read()))
    put(os.path.join(gen, offset, "export.hpp"), "#pragma once\n#define LUE_FAPI_EXPORT\n")

    # The framework's libraries contain instantiations for all types. Here, these are made where they are used.
    definitions = {os.path.basename(p)[:-4]: "lue/framework/algorithm/definition/" + os.path.basename(p)
                   for p in glob.glob(B.REPO + "/source/framework/algorithm/include/lue/framework/algorithm/definition/*.hpp")}
    names = {"mean": "focal_mean", "where2": "where", "where3": "where"}
    parts = [("p32_fields.cpp", None)]
    for path in sorted(glob.glob(API + "/source/**/*.cpp", recursive=True)):
        stem = os.path.basename(path)[:-4]
        out = os.path.join(gen, "p32_%s.cpp" % os.path.relpath(path, API + "/source")[:-4].replace("/", "_"))
        text = '#include "fw.hpp"\n#include "lue/framework/algorithm/serialize/kernel.hpp"\n'
        for name in (stem, names.get(stem)):
            if name in definitions and stem != "where2":
                text += '#include "%s"\n' % definitions[name]
        put(out, text + '#include "%s"\n' % path)
        parts.append((out, None))

    # The definition of this one is ambiguous when its declaration is also used
    text = '#include "fw.hpp"\n#include "%s"\n#include "lue/framework/algorithm/value_policies/where.hpp"\n' % definitions["where"]
    for e in ELEMENTS:
        for argument in ("PartitionedArray<%s, 2>" % e, "hpx::shared_future<%s>" % e):
            text += """
template lue::PartitionedArray<{e}, 2> lue::where<lue::policy::where::DefaultValuePolicies<{e}, std::uint8_t, {e}>, std::uint8_t, {e}, 2>(
    lue::policy::where::DefaultValuePolicies<{e}, std::uint8_t, {e}> const&, PartitionedArray<std::uint8_t, 2> const&, {a} const&);
""".format(e=e, a=argument)
    put(os.path.join(gen, "p32_where.cpp"), text)
    parts.append((os.path.join(gen, "p32_where.cpp"), None))

    with open(B.REPO + "/source/framework/io/source/gdal.cpp.in") as f:
        text = f.read()
    text = '#include "fw.hpp"\n' + text[:text.index("{%")]
    for e in ELEMENTS:
        text += """
template lue::PartitionedArray<%s, 2> lue::from_gdal<%s>(std::string const&, lue::Shape<lue::Count, 2> const&);
template lue::PartitionedArray<%s, 2> lue::from_gdal<%s>(std::string const&, lue::Hyperslab<2> const&, lue::Shape<lue::Count, 2> const&);
template hpx::future<void> lue::to_gdal<%s>(
    lue::PartitionedArray<%s, 2> const&, std::string const&, std::string const&, std::map<std::string, std::string> const&);
""" % ((e,) * 6)
    put(os.path.join(gen, "p32_gdal.cpp"), text)
    parts.append((os.path.join(gen, "p32_gdal.cpp"), None))
    return B.fw_harness("p32", parts, opt="-O0", libs=["lue_gdal", "gdal"], project=True,
                        cxxflags=["-I" + d for d in (B.VERIF + "/harness/p32_config", gen, API + "/include", API + "/source")])


def ARGS(tier):
    return []
