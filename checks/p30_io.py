"""P30: reading from and writing to LUE datasets by models."""
import build as B

PROPERTY = "P30"
LEVEL = "model_checking"
RULE = ("any program of from_lue and to_lue calls has the effect of executing these one after the other, a dataset that is open for writing is open nowhere else, the dataset is closed "
        "once the future returned by to_lue is ready, and failures to write are reported, whatever the order of the tasks")
BOUND = {"quick": "all programs of 1 and 2 of 13 steps (read, write, copy; constant and variable rasters) on 1-2 localities; 38 programs of 2 to 4 steps, with 1 and 2 partitions, all schedules with "
                  "1 deviation (preemptions at synchronization operations and around HDF5 calls that open, close, read, and write); round trips of 7 element types, all partitionings of arrays up to 2x3 (3x3 for two types), all "
                  "hyperslabs; each write of up to 4 partitions failing, with all schedules with 1 deviation",
         "thorough": "all programs of 3 steps; 2 deviations; 3 localities"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here"]


def build():
    io = B.REPO + "/source/framework/io/source/"
    return B.fw_harness("p30", [("p30_io.cpp", None)] + [("p30_values.cpp", i) for i in range(7)] + [(io + "dataset.cpp", None), ("p30_lue.cpp", None)], opt="-O0", libs=["lue_data_model_hl", "lue_data_model", "lue_hdf5"],
                        cxxflags=["-DP30_LUE=\"%slue.cpp\"" % io], project=True, ldflags=["-rdynamic", "-ldl"])


def ARGS(tier):
    return []
