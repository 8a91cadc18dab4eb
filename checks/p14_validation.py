"""P14: validation of datasets."""
import build as B

PROPERTY = "P14"
LEVEL = "model_checking"
RULE = ("every combination of small contents of object trackers, object ids, time and space domains and properties of the six kinds "
        "(consistent and inconsistent), discretizations of every kind, is stored in a dataset next to healthy parts; the "
        "verdict of validation is compared with the rules, evaluated on the contents by an independent model; every object and attribute of a "
        "dataset is removed in turn; every sequence of issues is printed")
BOUND = {"quick": "contents of up to 3 - 5 numbers of 2 - 4 values, ids, coordinates, counts and indices also beyond 2^31, 2^32 and 2^63", "thorough": "one or two numbers more"}
ASSUMPTIONS = ["active sets start at index zero; validation of parts which the code reports as not supported is not judged"]


def build():
    return B.harness("p14_validation", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
