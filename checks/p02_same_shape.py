"""P02: values of objects whose arrays have the same shape."""
import build as B

PROPERTY = "P02"
LEVEL = "model_checking"
RULE = ("every sequence of expansions, writes (one object, a range, everything), reopenings and changes of handle up to "
        "a depth, on every bounded array shape and element type; a state is the number of objects and which cells are "
        "written")
BOUND = {"quick": "9 operations to depth 3 (three shapes, two kinds) and depth 4 (one shape); 10 element types x 5 shapes "
                  "x 5 histories; values of more than one chunk", "thorough": "as quick, and depth 5"}
ASSUMPTIONS = ["HDF5 stores what it is given"]


def build():
    return B.harness("p02_same_shape", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
