"""P11: lifetimes of handles."""
import build as B

PROPERTY = "P11"
LEVEL = "model_checking"
RULE = ("every sequence of opening, copying, moving, assigning and dropping identifiers in three slots, next to a model of who "
        "refers to what; the same for groups, datasets, files, attributes, datatypes and dataspaces; every sequence of 53 kinds "
        "of work on a LUE dataset (succeeding and failing, keeping copies of what they obtain), after which no handle is open")
BOUND = {"quick": "33 operations to depth 3, 11 to depth 4; 6 classes x 7 operations to depth 4; 53 kinds of work to depth 2, each twice",
         "thorough": "depth 4, 5, 5 and 3"}
ASSUMPTIONS = ["assigning an object to itself by moving is not supported"]


def build():
    return B.harness("p11_lifecycle", libs=["lue_data_model_hl", "lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
