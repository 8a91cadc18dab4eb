"""P12: attributes and datatypes."""
import build as B

PROPERTY = "P12"
LEVEL = "model_checking"
RULE = ("every sequence of writing attributes (strings, numbers of ten types, sequences of numbers of several lengths, over the "
        "previous value of any other kind and size), reopening and changing handle up to a depth, on files, groups and datasets; "
        "every pair of types in file and memory; every length of string up to 300 bytes and around limits; datatypes of strings")
BOUND = {"quick": "31 operations to depth 2, 9 operations to depth 4, on three kinds of objects", "thorough": "depth 3 and 5"}
ASSUMPTIONS = ["empty strings are not stored (rejected by HDF5)", "attributes are read as the type they were written as"]


def build():
    return B.harness("p12_attributes", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
