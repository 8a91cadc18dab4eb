"""P18: GDAL rasters."""
import build as B

PROPERTY = "P18"
LEVEL = "model_checking"
RULE = ("every raster and block shape; every data type; every way of writing a known extension; every set of layout options; "
        "every window of small rasters, written and read; every sequence of writing cells, windows, blocks, no-data values and "
        "transforms, and reopening, next to arrays, followed by a copy; every pair of rasters which differ in shape, type, "
        "number of bands, transform, no-data value or cells, and every cell made different in turn")
BOUND = {"quick": "rasters up to 10x10 in blocks, 3x4 in windows, ops to depth 4 (i32) and 3", "thorough": "24x24; 9x11; depth 5 and 4"}
ASSUMPTIONS = ["rasters are kept in memory files (/vsimem) of the GTiff driver, datasets also in GTiff and HFA files"]


def build():
    return B.harness("p18_gdal", libs=["lue_gdal", "gdal"], opt="-O0")


def ARGS(tier):
    return []
