"""P04: object tracking information and domains, owned or shared."""
import build as B

PROPERTY = "P04"
LEVEL = "model_checking"
RULE = ("every sequence of additions of property-sets (own or shared tracker, own, shared or no time domain, with or without "
        "a space domain; shared with the first or the last set, which may share it themselves), additions to trackers and "
        "domains by means of any set, reopenings and changes of handle up to a depth; a state is who shares what and how much is in it")
BOUND = {"quick": "24 operations to depth 3, 9 to depth 4, 6 to depth 5", "thorough": "24 operations to depth 4, 6 to depth 7"}
ASSUMPTIONS = ["sets share with sets in the same dataset"]


def build():
    return B.harness("p04_tracking", libs=["lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
