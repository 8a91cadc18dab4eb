"""P06: space domains and discretization."""
import build as B

PROPERTY = "P06"
LEVEL = "model_checking"
RULE = ("every kind of space domain x element type x rank, with and without a time domain, and every sequence of expansions, "
        "writes, reopenings and changes of handle up to a depth; every sequence of links between properties of every pair of "
        "kinds in three sets of two phenomena, reopenings and changes of handle")
BOUND = {"quick": "4 kinds x 10 types x 4 ranks; 6 operations to depth 4; 36 pairs of kinds x 11 operations to depth 3; x 3 ways of naming x 7 operations to depth 2",
         "thorough": "as quick, depth 6, 4 and 3"}
ASSUMPTIONS = []


def build():
    return B.harness("p06_space", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
