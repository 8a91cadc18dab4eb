"""P05: time domains."""
import build as B

PROPERTY = "P05"
LEVEL = "model_checking"
RULE = ("every kind of time domain x unit x number of units x epoch is stored and reopened; every pair and triple of clocks is "
        "compared; every sequence of expansions, writes, counts, reopenings and changes of handle up to a depth on every kind; "
        "all aspects' names and neighbouring strings")
BOUND = {"quick": "10 units, 7 counts, 22 epochs (all for a count of one; all counts for one epoch); 880 clocks compared; histories "
                  "of 7 operations to depth 4", "thorough": "all combinations; histories to depth 6"}
ASSUMPTIONS = ["origins of epochs are not empty"]


def build():
    return B.harness("p05_time", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
