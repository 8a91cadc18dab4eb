"""P10: chunks of stored object arrays."""
import build as B

PROPERTY = "P10"
LEVEL = "exploration"
RULE = ("every shape of rank 0 - 5 over boundary extents x every element size, on the chunk shape function; every element "
        "type x kind of value x 16 shapes, on the datasets that are created; outcomes are distinct chunk shapes")
BOUND = {"quick": "45 extents (rank 1: all up to 3000 and a grid up to 3 million; rank 4 - 5: 13 extents), 16 element sizes",
         "thorough": "73 extents, and all combinations of 13 extents at rank 5"}
ASSUMPTIONS = ["extents are at least one, values are smaller than 2^63 bytes"]


def build():
    return B.harness("p10_chunk_shape", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
