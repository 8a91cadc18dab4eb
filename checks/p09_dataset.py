"""P09: HDF5 datasets: selections, filling, resizing, conversion."""
import build as B

PROPERTY = "P09"
LEVEL = "model_checking"
RULE = ("every selection (start, stride, count in every dimension) of every bounded shape x element type x layout x layout in "
        "memory is written, read and filled; every pair of element types in file and memory; every sequence of resizing, writing, "
        "filling, failing operations, reopening and changing handle up to a depth, with and without a fill value")
BOUND = {"quick": "11 shapes up to 5 elements per dimension and rank 3; 14 operations to depth 3, 6 operations to depth 4",
         "thorough": "18 shapes up to rank 4; 14 operations to depth 4, 6 operations to depth 6"}
ASSUMPTIONS = ["HDF5 itself is trusted; values that the other type cannot represent are not converted"]


def build():
    return B.harness("p09_dataset", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
