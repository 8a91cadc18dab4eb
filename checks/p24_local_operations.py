"""P24: local operations on partitioned arrays."""
import build as B

PROPERTY = "P24"
LEVEL = "model_checking"
RULE = ("every output cell of a local operation is the value of the operation for the corresponding input cells, or "
        "no-data if one of these is no-data, is outside of the domain of the operation, or the result is outside of the "
        "range of the output element; whatever the partitioning, the localities, and the order of the tasks")
BOUND = {"quick": "all pairs of 8-13 boundary values per element type, in all forms (array, scalar, value); all layouts of arrays up to 4x4 in "
                  "partitions on 1-3 localities; all schedules with 1 deviation of a 2x3 array, switching at blocking points and when tasks are made",
         "thorough": "layouts up to 5x5; 2 deviations"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here"]


def build():
    return B.fw_harness("p24", [("p24_local_main.cpp", None)] + [("p24_local_ops.cpp", i) for i in range(9)])


def ARGS(tier):
    return []
