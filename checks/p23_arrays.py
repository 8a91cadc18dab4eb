"""P23: structure and creation of partitioned arrays."""
import build as B

PROPERTY = "P23"
LEVEL = "model_checking"
RULE = ("partitions tile an array exactly, are where the array says they are, and every way of creating an array puts the value each cell should have "
        "in it; in-memory arrays, slices, hyperslabs, indices, curves and shared buffers behave like a flat list of elements in row-major order")
BOUND = {"quick": "all arrays up to 5x5 cells in all partitions on 1-3 localities and all schedules with 1 deviation; shapes of rank 1-3 with extents up "
                  "to 9; sequences of 4 operations on in-memory data structures",
         "thorough": "arrays up to 7x7 cells on 1-5 localities, 2 deviations; sequences of 5 operations"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here"]


def build():
    return B.fw_harness("p23", [("p23_arrays_main.cpp", None), ("p23_structure.cpp", None)] + [("p23_create.cpp", i) for i in range(4)])


def ARGS(tier):
    return []
