"""P13: groups, links, names and paths in HDF5 files."""
import build as B

PROPERTY = "P13"
LEVEL = "model_checking"
RULE = ("every sequence of creating groups, datasets, soft and hard links in a tree of three levels, reopening and changing handle "
        "up to a depth, next to a graph model with which every place, name and link is compared; every byte as part of a name; "
        "identity of groups in files with the same contents, opened in several ways; creation, opening, access modes and removal of files")
BOUND = {"quick": "36 operations to depth 3, 10 to depth 4", "thorough": "depth 4 and 6"}
ASSUMPTIONS = ["the target of a link exists when it is made; nothing is removed from a file"]


def build():
    return B.harness("p13_groups", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
