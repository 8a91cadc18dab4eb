"""P03: values of objects whose arrays differ in shape, per object or through time."""
import build as B

PROPERTY = "P03"
LEVEL = "model_checking"
RULE = ("every sequence of additions (one, several, several with flat shapes, already existing), writes, expansions, "
        "reopenings and changes of handle up to a depth, for the four kinds of values with varying shapes; a state is "
        "the set of items, their shapes and which cells are written")
BOUND = {"quick": "7 - 9 operations to depth 3 (rank 1 - 3) and depth 4 (rank 2); 10 element types x 3 ranks x 3 histories",
         "thorough": "as quick, and depth 5"}
ASSUMPTIONS = ["HDF5 stores what it is given"]


def build():
    return B.harness("p03_varying_shape", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
