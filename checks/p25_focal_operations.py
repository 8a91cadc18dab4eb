"""P25: focal operations on partitioned arrays."""
import build as B

PROPERTY = "P25"
LEVEL = "model_checking"
RULE = ("every output cell of a focal operation is the value of the operation for the cells around it in the whole array, cells outside of "
        "the array or without data not taking part; whatever the kernel, the partitioning, the localities, and the order of the tasks")
BOUND = {"quick": "all 3x3 windows over an alphabet of 3; all 512 kernels; all positions in a 5x5 kernel; 324 layouts of arrays up to 15x15 in partitions "
                  "on 1-2 localities, kernels of radius 0-3; all schedules with 1 deviation of two partitions",
         "thorough": "all layouts of arrays up to 15x15 in partitions up to 7x7; 1 deviation on four partitions, 2 on two"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here",
               "an array whose partitions are smaller than the kernel is either refused or handled correctly"]


def build():
    return B.fw_harness("p25", [("p25_focal_main.cpp", None)] + [("p25_focal_ops.cpp", i) for i in range(8)])


def ARGS(tier):
    return []
