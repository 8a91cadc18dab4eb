"""P29: simulating models."""
import build as B

PROPERTY = "P29"
LEVEL = "model_checking"
RULE = ("run_deterministic, run_stochastic and simulate call the model and the progressor in the documented order, time step after time step, never start a time step "
        "while as many time steps as the rate limit allows are unfinished, and return only when all time steps are finished, whatever the order of the tasks")
BOUND = {"quick": "all combinations of 5 behaviours in up to 3 time steps, with each rate limit up to one more than the number of time steps, all schedules with up to 2 "
                  "deviations at tasks and synchronization operations; all schedules of a single time step and those with 3 deviations of two; up to 10 time steps with the same behaviour; 0-3 samples; "
                  "ranges of time steps that start elsewhere",
         "thorough": "4 time steps; more schedules"}
ASSUMPTIONS = ["HPX is replaced by a stand-in with a controlled scheduler (hpxmock), as it is not available here; its sliding semaphore does what HPX documents"]


def build():
    return B.fw_harness("p29", [("p29_model.cpp", None), (B.REPO + "/source/framework/model/source/model.cpp", None),
                                (B.REPO + "/source/framework/model/source/progressor.cpp", None)])


def ARGS(tier):
    return []
