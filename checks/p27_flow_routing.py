"""P27: flow routing."""
import build as B

PROPERTY = "P27"
LEVEL = "model_checking"
RULE = ("inflow counts, accumulated material, what is left behind because of a threshold, capacity, fraction or trigger, values of upstream and downstream "
        "cells, and the discharge of the kinematic wave are those of a sequential walk from the ridges to the sinks of the flow direction network; whatever "
        "the partitioning, the localities, and the order of the tasks and of the messages between partitions")
BOUND = {"quick": "all valid flow direction networks of 1x1, 1x2 and 2x1 cells, and those of 2x2 cells that drain within the array; for accu, inflow_count, upstream and "
                  "downstream also all networks of 2x2, 1x3 and 3x1 cells, those of 2x3, 3x2, 1x4 and 4x1 cells that drain within the array, and all 3x3 windows with neighbours that "
                  "drain into the cell, away from it, or are no-data; some 40 network patterns (converging, spirals, single streams, diverging, out of the array, with no-data) in "
                  "arrays up to 4x4 (operations that use a focal kernel: up to 7x7) in all partitionings, on 1-3 localities; all schedules with 1 deviation, with and without "
                  "preemption, for patterns on 1x2 and 1x3 partitions, and without preemption on 2x2 partitions",
         "thorough": "also all networks of 2x4 and 4x2 cells that drain within the array, all valid networks of 3x3 cells, patterns in arrays up to 6x6 (focal: 7x7), schedules with "
                     "1 deviation on 2x2 and 2x3 partitions with preemption, and with 2 deviations on 1x2 and 1x3 partitions"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here",
               "values are chosen such that sums are exact, in whatever order they are added",
               "networks contain no cycles and no cells draining into no-data cells",
               "kinematic wave: cells are not dry (issue 703), the discharge is compared with that found by bisection with tolerance 1e-6 (1e-3 for 32 bit)"]


def build():
    return B.fw_harness("p27", [("p27_flow_main.cpp", None)] + [("p27_flow_ops.cpp", i) for i in range(7)])


def ARGS(tier):
    return []
