"""P31: reading from and writing to GDAL rasters by models."""
import os

import build as B

PROPERTY = "P31"
LEVEL = "model_checking"
RULE = ("from_gdal returns the cells in the raster, or part of it, with the raster's no-data value turned into the array's; to_gdal leaves all cells, the no-data value, and the settings of the clone "
        "in the raster, which is closed once the future returned is ready; no two tasks have the raster open when it is written; failures are reported; whatever the order of the tasks")
BOUND = {"quick": "7 element types, 4 kinds of no-data values, all partitionings of rasters up to 2x3 (4x3 for one type), all hyperslabs in and around these; all programs of 1 and 2 of 5 steps, "
                  "7 of 2 and 3 steps, up to 6 partitions on 1-2 localities, with 1 or 2 partitions all schedules with 1 deviation (preemptions at synchronization operations and around GDAL calls that open, close, "
                  "read, and write); each read, write and open call, and each partition, failing",
         "thorough": "4x3 rasters for all types and 3 localities; 2 deviations; up to 4 partitions"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here"]


def build():
    # The build of the framework adds instantiations for its types to this file. Here, p31_values.cpp does that.
    with open(B.REPO + "/source/framework/io/source/gdal.cpp.in") as f:
        text = f.read()
    text = text[:text.index("{%")]
    path = os.path.join(B.FW_GEN, "p31_gdal_io.cpp")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return B.fw_harness("p31", [("p31_gdal.cpp", None)] + [("p31_values.cpp", i) for i in range(7)], opt="-O0", libs=["lue_gdal", "gdal"],
                        cxxflags=["-DP31_GDAL=\"%s\"" % path], project=True, ldflags=["-rdynamic", "-ldl"])


def ARGS(tier):
    return []
