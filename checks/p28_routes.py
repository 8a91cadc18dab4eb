"""P28: routes."""
import build as B

PROPERTY = "P28"
LEVEL = "model_checking"
RULE = ("decreasing_order creates one route for each zone with valid values (or a single one, without zones), that visits the cells with the highest values, from high "
        "to low, each once, and consists of fragments that refer to each other across partitions; first_n marks the first cells of each route; whatever the "
        "partitioning, the localities, the maximum number of cells, and the order of the tasks")
BOUND = {"quick": "all combinations of 2 zones or no zone and 2 values or no value in arrays of up to 2x2 and 1x4 cells (with zones, first type), 1x3 and 3x1 (other types), all "
                  "of 4 values or no value without zones, in all partitionings and with each maximum length; 16 patterns in arrays up to 4x4 in all partitionings on 1-3 "
                  "localities; all schedules with 1 deviation, with preemption, for the patterns in 2-4 partitions, and with 2 deviations on 2 partitions",
         "thorough": "3 values per zone, arrays up to 2x3 and 1x5 cells; patterns in arrays up to 6x6; schedules with 2 deviations on up to 4 partitions"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here",
               "which of the cells with equal values comes first is left open"]


def build():
    return B.fw_harness("p28", [("p28_routes.cpp", None), (B.REPO + "/source/framework/algorithm/source/routing_operation/walk/cell_counter.cpp", None)])


def ARGS(tier):
    return []
