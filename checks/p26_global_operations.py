"""P26: global and zonal operations, clumps, identifiers and reclassification."""
import build as B

PROPERTY = "P26"
LEVEL = "model_checking"
RULE = ("a global operation returns the aggregate over all valid cells of the whole array, a zonal operation puts the aggregate over all valid cells of "
        "a zone in every cell of that zone, clumps are the connected components of equal cells of the whole array, unique is the set of values, unique ids "
        "are unique, and reclassify looks up every cell; whatever the partitioning, the localities, and the order of the tasks")
BOUND = {"quick": "layouts of arrays up to 4x4 in all partitions on 1-3 localities; all grids over an alphabet of 2x2 and 2x3 cells; all binary grids of "
                  "2x3, 3x3, 3x4, 4x4 cells for clumps; all schedules with 1 deviation",
         "thorough": "arrays up to 5x5; clumps in all binary grids of 4x5 cells; 2 deviations on small arrays"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here",
               "which number a clump gets is left open: two cells have the same clump id if and only if they are connected"]


def build():
    return B.fw_harness("p26", [("p26_global_main.cpp", None)] + [("p26_global_ops.cpp", i) for i in range(6)])


def ARGS(tier):
    return []
