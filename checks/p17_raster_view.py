"""P17: raster views and array path names."""
import build as B

PROPERTY = "P17"
LEVEL = "model_checking"
RULE = ("every sequence of creating raster views (constant, variable) and other sets at three places in two phenomena, with and without "
        "objects of their own, adding layers with new and old views under new and used names, adding properties which are almost layers, writing layers and reopening, next to "
        "a model with which everything views tell is compared, and which is validated; every way in which a set is almost a "
        "raster; every element type; every path name of up to five parts")
BOUND = {"quick": "24 operations to depth 2, 11 to depth 3; 10 to depth 3 after eight beginnings", "thorough": "depth 4 and 6"}
ASSUMPTIONS = ["a constant raster with a layer called time_grid_shape is not recognised"]


def build():
    return B.harness("p17_raster_view", libs=["lue_data_model_hl", "lue_data_model", "lue_hdf5"])


def ARGS(tier):
    return []
