MC = "exhaustive enumeration of %s on the real code, next to a reference model"
TODO = "not built yet"

prop("P01", "A dataset contains exactly the items that were added to it",
     "After any sequence of additions of universes, phenomena, (collection) property sets and properties of any kind, "
     "a dataset contains exactly the items added successfully: their names, containment, sizes, kinds, descriptions and "
     "lookup by item or attribute agree with the history, at once and after closing and reopening the file. Adding an "
     "item with a new name succeeds, and adding one with a name already in use in that collection (for properties: in "
     "use by a property of any kind in the set) fails and changes nothing. A name that cannot be stored as the name of "
     "a direct member of the collection is rejected.",
     ["histories", "inputs"], "all sequences of additions and reopenings, all names",
     "The tests add one or two items of each kind in a fixed order; which later additions clash, and what a reopened "
     "file contains, depends on the whole history.",
     [DM + "cxx/include/lue/core/collection.hpp", CXX + "object/dataset.cpp", CXX + "object/phenomenon.cpp",
      CXX + "object/property_sets.cpp", CXX + "object/property/properties.cpp", H5 + "group.cpp"],
     [("Collection keeps a map of opened items next to the HDF5 group", "cxx/include/lue/core/collection.hpp"),
      ("names are unique over all kinds of properties", "Properties::verify_property_does_not_exist")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound, compared with a nested-dictionary model after every step and "
          "after reopening; trusts HDF5 and the Python interpreter")

prop("P07", "Arrays in Python are read and assigned like NumPy arrays",
     "For every array of numbers in a dataset and every combination of integers and slices used as an index in "
     "Python, reading returns the elements, shape and element type NumPy's basic indexing returns, and assigning a "
     "number, list or array (of any element type able to represent them) of the indexed shape stores exactly those "
     "values and leaves all others as they were. Integers out of range raise IndexError; assignments of a number of values that does not fit, and kinds of "
     "values and indices that are not supported, raise an exception and change nothing.",
     ["inputs"], "all array shapes, element types, index expressions and assigned values",
     "The tests index a handful of arrays with a handful of in-range indices; wrap-around, clamping, empty results and "
     "steps behave differently at every boundary.",
     [PY + "core/array.cpp", PY + "conversion.cpp", H5 + "hyperslab.cpp", H5 + "dataset.cpp"],
     [("indices and slices are translated to a hyperslab", "python/source/core/array.cpp"),
      ("element types are mapped between HDF5 and NumPy", "python/source/conversion.cpp")],
     level="exploration", technique=MC % "index expressions over bounded shapes",
     note="every index expression of a bounded alphabet on every bounded shape, NumPy as oracle")

prop("P02", "Values with one shape per property: written arrays are read back",
     "For a property whose object arrays all have the same shape (constant, or the same at every location in time), "
     "for every shape and element type and after any sequence of expanding and writing (one object, a range, "
     "everything), reading an object's array, a range or everything returns the elements last written to each cell, "
     "the no-data value in cells never written when one was given, and no other memory is touched. Expanding adds "
     "exactly the requested number of arrays and keeps existing ones. The same holds through another handle and "
     "after reopening.",
     ["histories", "inputs"], "all histories of expansions, writes, reopenings; all array shapes and element types",
     "The tests expand once and write everything once, for a couple of shapes.",
     [CXX + "array/same_shape/value.cpp", CXX + "array/same_shape/constant_shape/value.cpp", CXX + "core/array.cpp",
      H5 + "dataset.cpp", H5 + "hyperslab.cpp"],
     [("values are stored in one HDF5 dataset which is expanded", "same_shape::Value::expand"),
      ("indices and ranges are translated to hyperslabs", "same_shape::Value::read, write")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound over two kinds of values, compared with arrays in memory after every "
          "step; canaries next to buffers")

prop("P03", "Values with varying shapes: written arrays are read back",
     "For a property whose object arrays differ in shape per object, per location in time, or both, for every rank, "
     "shape and element type and after any sequence of adding objects or locations in time (one or several at once, "
     "in any order of ids) and writing, each object's array has exactly the shape it was added with and contains the "
     "elements last written to it; counts and membership agree with what was added; adding an existing item fails "
     "and changes nothing. The same holds through another handle and after reopening.",
     ["histories", "inputs"], "all histories of additions and writes, all ranks, shapes, ids and element types",
     "The tests add objects once with rank 2 shapes.",
     [CXX + "array/different_shape/value.cpp", CXX + "array/different_shape/constant_shape/value.cpp",
      CXX + "array/different_shape/variable_shape/value.cpp", CXX + "array/same_shape/variable_shape/value.cpp",
      CXX + "array/value_group.cpp"],
     [("arrays are stored in datasets named after the id or index", "different_shape::Value::expand"),
      ("the number of items is stored in an attribute and cached", "ValueGroup, different_shape::Value")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound over four kinds of values, compared with arrays in memory after "
          "every step")

prop("P10", "Chunks of stored arrays respect the size limits for every shape",
     "For every array shape and element size, the shape of the chunks in which arrays are stored has one extent more "
     "than the array, each extent is at least one and not larger than that of the array, and a chunk takes at most "
     "1 MiB and at least 10 KiB (for elements that fit at least twice). Arrays smaller than 1 MiB are not split, and "
     "as many as fit share a chunk; larger ones do not share chunks. Datasets of properties are created with such "
     "chunks.",
     ["inputs"], "all array shapes and element sizes",
     "The tests look at seven shapes of one element size.",
     [H5 + "chunk.cpp", H5 + "shape.cpp", CXX + "array/same_shape/value.cpp",
      CXX + "array/same_shape/constant_shape/value.cpp"],
     [("sizes are divided over dimensions in order of increasing extent", "chunk_shape")],
     level="exploration", technique=MC % "shapes and element sizes over boundary extents",
     note="every combination of boundary extents up to rank 5 and 16 element sizes, against the stated limits")

prop("P04", "Object tracking and domains, owned or shared, agree with what was added",
     "A property-set has exactly the object tracker and the time and space domain it was created with. When it was "
     "created sharing the tracker or the time domain of another set, anything added by means of either set is seen by "
     "means of both, and by any set sharing with those; sets that do not share never influence each other. Active set "
     "indices, active object ids, active object indices, object ids and locations hold what was written, in the order "
     "of addition, through any handle and after reopening, and an active set ends where the next one starts.",
     ["histories"], "all sequences of creating sets (owning or sharing, in chains) and adding to trackers and domains",
     "The tests create one pair of sharing sets and look at it once.",
     [CXX + "object/identity/object_tracker.cpp", CXX + "object/property/property_set.cpp",
      CXX + "object/property_sets.cpp", CXX + "info/identity/active_object_id.cpp",
      CXX + "info/identity/active_set_index.cpp", H5 + "group.cpp", H5 + "link.cpp"],
     [("sharing is a soft link to the group of the other set", "create_property_set, link_object_tracker, link_time_domain")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound, next to a model of who shares what, compared after every step and "
          "after reopening")

prop("P05", "Time domains, clocks and epochs are stored and compared faithfully",
     "A time domain reopened from file has the configuration and the clock it was created with: kind of item, unit, "
     "number of units, and epoch with its kind, origin and calendar. Clocks are equal exactly when unit, number of "
     "units and epoch are, and < is a strict total ordering consistent with equality. Locations in time hold what was "
     "written after any sequence of additions. Names of aspects convert to the aspect and back, other strings are "
     "rejected. Durations, tick periods and time points follow integer arithmetic.",
     ["inputs", "histories"], "all clocks, epochs, kinds of time domain, histories of additions, strings",
     "The tests compare a few clocks and store one of each kind.",
     [CXX + "core/clock.cpp", CXX + "core/time/epoch.cpp", CXX + "object/time_domain.cpp", CXX + "info/time",
      DM + "cxx/include/lue/core/time"],
     [("the clock and epoch are stored as attributes", "cxx/source/object/time_domain.cpp"),
      ("comparison operators of Clock and Epoch", "cxx/source/core/clock.cpp, core/time/epoch.cpp"),
      ("aspects are converted with bidirectional maps", "cxx/include/lue/core/aspect.hpp")],
     level="model_checking", technique=MC % "configurations, pairs and triples of clocks, and operation sequences",
     note="every combination within the bound, against plain tuples and arrays in memory, before and after reopening")

prop("P06", "Space domains and discretization links are stored faithfully",
     "A space domain reopened from file has the mobility and kind of item it was created with, and its locations have "
     "the rank, element type and coordinates written, in order, after any sequence of additions. A property is linked "
     "to the property discretizing it through time or space, or a space domain to the property discretizing presence, "
     "if and only if such a link was set, which succeeds once; the link leads to exactly that property, wherever it "
     "is, and setting one link leaves all others as they were. The same holds after reopening.",
     ["inputs", "histories"], "all kinds of space domain, ranks, element types; all sequences of adding properties and links",
     "The tests set one link of each kind, between two properties, and look at it in the same session.",
     [CXX + "object/space_domain.cpp", CXX + "info/property/property_group.cpp",
      CXX + "info/space", DM + "cxx/include/lue/info/space"],
     [("discretization properties are soft links", "PropertyGroup::set_time_discretization, set_space_discretization"),
      ("points and boxes are arrays of rank or 2 x rank elements", "cxx/source/info/space")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound next to a model of the links, compared after every step")

prop("P09", "HDF5 datasets: selections, filling, resizing and conversion are exact",
     "Writing, reading or filling any selection (offset, stride, count) of a dataset affects or returns exactly the "
     "selected elements, in order, whatever the layout in file or memory, and touches no other elements or memory. "
     "Selections outside of the dataset and wrong numbers of values are rejected and change nothing. After resizing, "
     "elements that remain keep their value and new ones have the fill value, if any. Element types are mapped one to "
     "one between memory and file, and values both types can represent survive conversion. The same holds through "
     "another handle and after reopening.",
     ["inputs", "histories"], "all shapes, selections, layouts, pairs of element types and histories of operations",
     "The tests write and read whole datasets and one or two blocks.",
     [H5 + "dataset.cpp", H5 + "dataspace.cpp", H5 + "hyperslab.cpp", H5 + "datatype.cpp",
      DM + "hdf5/include/lue/hdf5/datatype_traits.hpp"],
     [("selections are translated to HDF5 hyperslabs", "Dataset::read, write, fill"),
      ("file and memory datatypes are mapped by chains of comparisons", "file_datatype, memory_datatype")],
     level="model_checking", technique=MC % "selections, pairs of types, and operation sequences up to a depth",
     note="every selection of every bounded shape and every operation sequence within the bound, compared with arrays in "
          "memory; canaries next to buffers; trusts HDF5")

prop("P11", "Handles to HDF5 objects are shared by copies and released with the last one",
     "An HDF5 object stays open as long as any copy of the identifier (or of the group, dataset, file, attribute, "
     "datatype, dataspace or data model object holding it) refers to it, and is closed when the last one is gone, "
     "moved from or assigned over: never earlier, never later. After any sequence of operations on a dataset, whether "
     "they succeed or fail, letting go of all objects leaves no handle open, so that the file can be created again.",
     ["histories"], "all sequences of opening, copying, moving, assigning and dropping; all sequences of operations",
     "Leaks and premature closes depend on the order of copies and failures and are invisible to a test that reads back "
     "a value.",
     [H5 + "identifier.cpp", H5 + "attribute.cpp", H5 + "primary_data_object.cpp", H5 + "group.cpp", H5 + "datatype.cpp",
      DM + "cxx/include/lue/core/collection.hpp"],
     [("reference counts of identifiers are those of HDF5", "Identifier copy, move, close_if_valid")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound; the identifiers HDF5 handed out are examined one by one afterwards")

prop("P12", "Attributes hold the value last written, whatever was there before",
     "An attribute of a file, group or dataset read back has exactly the value last written to it, for strings of any "
     "length and contents, numbers of all types and sequences of numbers of any length, also when the previous value "
     "had another size or type. A write that fails leaves the previous value. Attributes do not influence each other, "
     "exist once they are written and not before, and the same holds through another handle and after reopening. "
     "Datatypes of strings are equal exactly when their sizes are.",
     ["histories", "inputs"], "all histories of writing attributes; all values",
     "The tests write each attribute once.",
     [H5 + "attribute.cpp", H5 + "attributes.cpp", DM + "hdf5/include/lue/hdf5/attribute.hpp",
      DM + "hdf5/include/lue/hdf5/attributes.hpp", H5 + "datatype.cpp"],
     [("an existing attribute is written in place or replaced", "Attributes::write")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound on three kinds of objects, compared with a map in memory after every "
          "step")

prop("P13", "Groups and links: names, paths, parents and membership agree with what was made",
     "A group contains exactly the groups, datasets and links that were created in it, under exactly their names, and "
     "links lead to exactly the object they were made for; names that exist or cannot be names are rejected and change "
     "nothing. Paths and parents of an object lead to it; two handles compare equal exactly when they refer to the same "
     "object. The same holds through another handle and after reopening. Files can be opened exactly when they exist and "
     "are HDF5 files, and read-only files are not changed.",
     ["histories", "inputs"], "all sequences of creating groups, datasets and links; all names",
     "The tests create one group or link at a time and ask for its name.",
     [H5 + "group.cpp", H5 + "link.cpp", H5 + "soft_link.cpp", H5 + "hard_link.cpp", H5 + "file.cpp", H5 + "object_info.cpp",
      H5 + "identifier.cpp"],
     [("members are found by iterating over links", "Group::group_names, object_names"),
      ("objects are compared by their address in the file", "ObjectInfo::operator==")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound, compared with a graph in memory at every place after every step")

prop("P14", "Validation reports exactly the inconsistencies of a dataset",
     "Validating a dataset finds an error exactly when its contents break a rule of the data model: object ids are unique; "
     "active sets are increasing and within the collection of active objects, in which no object occurs twice per set and "
     "which are existing objects; time domain items are increasing, and their number (or the sum of the counts of cells) is "
     "the number of active sets; space domain items and the values of each of the six kinds of properties are there for each "
     "object, active object or active set; space is discretized by one array of unsigned counts per object (or one for all). "
     "Errors are about the offending part, not about healthy ones. Whether asked by name, file or dataset, the same is "
     "found, asserting validity raises exactly when there are errors (or warnings, if these count), and the text mentions "
     "each issue once, grouped by object, errors first. A damaged dataset (a missing file, object or attribute) never "
     "crashes validation.",
     ["inputs"], "all contents of datasets, consistent and inconsistent ones",
     "The tests validate a few consistent datasets.",
     [CXX + "validate.cpp", DM + "cxx/include/lue/navigate.hpp", H5 + "issues.cpp", PY + "validate.cpp"],
     [("object trackers are validated before the values that depend on them", "validate_property_set"),
      ("each kind of value has its own rule", "validate_value")],
     level="model_checking", technique=MC % "contents of datasets up to a size",
     note="every combination of contents within the bound, compared with the rules evaluated on the contents in memory")

HL = DM + "hl/source/"
GD = DM + "gdal/source/"

prop("P17", "Raster views lay out, find, extend and recognise rasters in a dataset",
     "Creating a raster view (constant or variable in time) makes a valid set of one object with the box, clock, grid shape "
     "and number of time steps given, in a new or an existing phenomenon, whose object it represents if there is one. A view "
     "opened later, by any handle, tells the same and has exactly the layers added by any view of that raster, whose cells "
     "hold the values last written. A name which is taken by a layer or by any other property is refused, and nothing "
     "changes. Rasters are recognised exactly when everything a raster needs is in place; probing tells id, shape and type. "
     "Array path names of exactly three parts (or a dataset and three parts) are split into those parts, others refused.",
     ["histories", "inputs"], "all sequences of making and extending rasters; all almost-rasters; all path names",
     "The tests create one raster with one layer.",
     [HL + "raster_view.cpp", HL + "util.cpp", HL + "dataset_view.cpp", DM + "hl/include/lue/data_model/hl/raster_view.hpp"],
     [("discretization properties tie layers to the raster", "RasterView::RasterView, add_layer"),
      ("a raster is recognised by its domain and discretization", "contains_raster")],
     level="model_checking", technique=MC % "operation sequences up to a depth",
     note="every operation sequence within the bound, compared with a model of what views tell after every step")

prop("P18", "GDAL rasters: cells, settings, datasets and comparison",
     "Cells read from a raster band are the cells last written to it, by whole band, window or block, in any of the ten "
     "element types, whatever the layout in blocks, also after reopening and in a copy; reading or writing outside of the "
     "raster is refused. The blocks of a raster partition its cells. No-data values of all types, transformations (refused on "
     "reading if not north-up with square cells), shapes, numbers of bands and creation options are kept. Opening, creating "
     "or deleting what is not there or cannot be, raises. Extensions, in any case, are related to their driver, and data types "
     "to their names and C++ types. Comparing two rasters reports no difference exactly when shape, type, number of bands, "
     "transformation, no-data value and all cells are the same, whatever their layouts.",
     ["inputs", "histories"], "all windows, blocks, layouts, types and pairs of rasters; all sequences of writes",
     "The tests write one raster as a whole; comparison is not tested at all.",
     [GD + "blocks.cpp", GD + "compare_rasters.cpp", GD + "raster_band.cpp", GD + "raster.cpp", GD + "dataset.cpp",
      GD + "driver.cpp", GD + "data_type.cpp", DM + "gdal/include/lue/gdal/raster_band.hpp",
      DM + "gdal/include/lue/gdal/type_traits.hpp"],
     [("all cells are compared", "compare_values"), ("blocks at the edges are clipped", "Blocks::shape_in_valid_cells")],
     level="model_checking", technique=MC % "inputs and operation sequences within a bound",
     note="every window, block shape, operation sequence and pair of rasters within the bound, compared with arrays in memory")

prop("P08", "Arrays of strings in Python are stored and returned faithfully",
     "Strings without NUL characters assigned in Python to a one-dimensional array of strings, by slice, are read back "
     "as they were, whatever their characters and lengths, whether assigned as an array of strings (of any width and "
     "layout), of UTF-8 encoded bytes, or as a list or tuple; all others stay as they were. Assigning anything else, "
     "or another number of strings than selected, raises an exception and changes nothing. Strings never written, next "
     "to strings that were, are empty. The same holds after any sequence of expanding and assigning, through another handle and after reopening.",
     ["inputs", "histories"], "all strings, all slices and kinds of values, all sequences of assignments",
     "The tests store a few short strings.",
     [PY + "core/array.cpp", PY + "conversion.cpp", H5 + "vlen_memory.cpp", H5 + "datatype.cpp"],
     [("strings are converted between fixed width UTF-32 and variable length UTF-8", "python/source/core/array.cpp")],
     level="model_checking", technique=MC % "Unicode code points, slices and histories of assignments",
     note="a list of strings is the model; every code point is stored; trusts HDF5 and NumPy")

prop("P22", "The Python API and the C++ API tell the same story about a dataset",
     "A dataset written with the Python API, by any of the ways to add property sets (with an own or shared time domain, "
     "an own or shared object tracker, a space domain, by position or keyword) and properties (by type, shape, rank and "
     "variability), and to expand and assign the values of each kind, is what both APIs say it is, live and reopened: the same "
     "names, descriptions, kinds, types, shapes, clocks, epochs, configurations, identities of shared domains and trackers, "
     "targets of discretization and presence links, and values. Items can be had by name, by attribute and from "
     "what a call returned, alike. Ids and shapes passed when expanding may be arrays of any integer type and layout, or lists. Raster "
     "views made in Python are the ones C++ sees. Calls that cannot be honoured, among which all changes of a "
     "dataset opened for reading, raise an exception and change nothing.",
     ["inputs", "histories"], "all overloads and arguments, all sequences of expansions and assignments, all links between properties",
     "The tests make a few case studies in Python, and never look at the result with C++.",
     [PY + "object/phenomenon.cpp", PY + "object/property_set.cpp", PY + "object/time_domain.cpp", PY + "object/space_domain.cpp", PY + "property_group.cpp",
      PY + "different_shape/value.cpp", PY + "conversion.cpp", PY + "core/clock.cpp", PY + "core/time/epoch.cpp", PY + "hl/raster_view.cpp", PY + "dataset.cpp",
      DM + "cxx/include/lue/navigate.hpp"],
     [("overloads pick the kind of set and property", "add_property_set, add_property"),
      ("a property found by its target gets its type from the set it is in", "property_group.cpp: space_discretization_property")],
     level="model_checking", technique=MC % "calls of the Python API and their sequences up to a depth",
     note="a dictionary of what was asked for is the model; the file is read by a program using the C++ API and by the Python API")

FA = "source/framework/algorithm/include/lue/framework/algorithm/"
FP = "source/framework/partitioned_array/include/lue/framework/"

prop("P24", "Local operations give the right value in every cell",
     "Each cell of the result of a local operation (arithmetic, comparison, logical, mathematical, rounding, cast, where, valid, "
     "close_to, cell_index) on partitioned arrays, scalars and values, in all combinations, is the value of the operation "
     "for the corresponding cells: no-data if one of these is no-data, is outside of the domain of the operation, or the result cannot be "
     "represented in the element type. This holds for every element type, shape of the array and its partitions, number of localities, "
     "and order in which tasks happen to be executed; no task is ever lost or waits forever.",
     ["schedules", "inputs"], "all values at the boundaries of types and domains, all layouts, and all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests use one partitioning and one schedule.",
     [FA + "definition/binary_local_operation.hpp", FA + "definition/unary_local_operation.hpp", FA + "definition/where.hpp", FA + "definition/valid.hpp",
      FA + "definition/cell_index.hpp", FA + "definition/cast.hpp", FA + "value_policies/add.hpp", FA + "value_policies/multiply.hpp", FA + "value_policies/divide.hpp",
      FA + "policy.hpp", FP + "partitioned_array_decl.hpp"],
     [("domain, input, output and range policies around each cell", "binary_local_operation.hpp"),
      ("partition tasks run when their inputs are ready", "hpx::dataflow in the definitions")],
     level="model_checking", technique=MC % "values, layouts and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; a cell by cell oracle in wide or floating point arithmetic")

prop("P25", "Focal operations give the right value in every cell",
     "Each cell of the result of a focal operation (sum, mean, minimum, maximum, majority, diversity, high pass, convolution, slope, "
     "aspect, flow direction) is the value of the operation for the cells of the whole array selected by the kernel around that cell, where cells "
     "outside of the array or without data take no part (for flow directions, everything outside of the array is lower). Boundaries between partitions are invisible: the result is the same for every shape of the array and "
     "its partitions, every kernel, number of localities and order in which tasks happen to be executed; no task is ever lost or waits forever.",
     ["schedules", "inputs"], "all windows over an alphabet, all kernels, all layouts in partitions, and all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests use a few partitionings and one schedule.",
     [FA + "definition/focal_operation.hpp", FA + "definition/focal_sum.hpp", FA + "definition/focal_mean.hpp", FA + "definition/focal_majority.hpp",
      FA + "definition/focal_diversity.hpp", FA + "definition/focal_high_pass.hpp", FA + "definition/convolve.hpp", FA + "definition/slope.hpp",
      FA + "definition/aspect.hpp", FA + "definition/d8_flow_direction.hpp", FA + "kernel.hpp"],
     [("halos are taken from neighbouring partitions, or filled at the border of the array", "definition/focal_operation.hpp"),
      ("kernels are applied around each cell", "focal_operation_inner and the sides and corners")],
     level="model_checking", technique=MC % "windows, kernels, layouts and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; a window by window oracle on the whole array")

FC = "source/framework/core/include/lue/framework/core/"

prop("P23", "Partitioned arrays are created with the requested shape, layout and values",
     "Every way of creating a partitioned array (from a buffer, a value, a range, a custom partition creator; copy, array_like, array_partition_id, "
     "locality_id, mesh_grid, downscale, uniform, normal, noise) results in an array with the requested shape, whose partitions tile it exactly, use all "
     "localities and are located where the array says they are, and in which each cell has the value the operation documents for that cell of the whole array. "
     "This holds for every valid shape of the array and its partitions, number of localities and order of tasks; requests with empty arrays, empty or too large "
     "partitions, or too few partitions for the localities are refused. The in-memory arrays, slices, hyperslabs, indices, curves and shared buffers these are built "
     "from agree with a flat list of elements in row-major order.",
     ["inputs", "schedules", "histories"], "all shapes of arrays and partitions, numbers of localities, orders of tasks, sequences of operations on in-memory arrays",
     "The framework is not even built by the tests here; its own tests use a few shapes that are multiples of the partition shape, and one schedule.",
     [FA + "create_partitioned_array.hpp", FC + "domain_decomposition.hpp", FC + "array.hpp", FC + "hyperslab.hpp", FC + "hilbert_curve.hpp", FC + "shared_buffer.hpp",
      FA + "range.hpp", FA + "fill.hpp", FA + "copy.hpp", FA + "mesh_grid.hpp", FA + "definition/resample.hpp", FA + "definition/uniform.hpp"],
     [("the shapes of partitions are derived from that of the array, remaining cells end up in the last partitions", "partition_shapes in domain_decomposition.hpp"),
      ("partitions are distributed over localities along a curve and created there", "create_partitioned_array")],
     level="model_checking", technique=MC % "array and partition shapes, operation sequences, and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; flat lists of elements as oracle")

prop("P26", "Global and zonal operations and clumps take the whole array into account",
     "sum, minimum and maximum return the aggregate over all valid cells of the whole array (no-data if there are none), all, any and none the logical one, unique the "
     "set of valid values. Zonal operations (sum, minimum, maximum, mean, majority, diversity, area, uniform, normal) put the same value, computed from all "
     "valid cells of a zone, in all cells of that zone and no-data in cells without a zone. Two cells get the same clump if and only if they are connected by cells "
     "with an equal valid value; unique_id puts a different value in each cell; reclassify replaces each value by the one in the table. All this holds for every array, "
     "partitioning, number of localities and order in which tasks happen to be executed.",
     ["inputs", "schedules"], "all grids over an alphabet, all partitionings, all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests use a few hand-made arrays, and one schedule. Connections between partitions are the hard part.",
     [FA + "unary_aggregate_operation.hpp", FA + "definition/zonal_operation.hpp", FA + "definition/clump.hpp", FA + "definition/unique.hpp", FA + "definition/unique_id.hpp",
      FA + "definition/reclassify.hpp", FA + "definition/zonal_majority.hpp", FA + "definition/zonal_mean.hpp", FA + "definition/zonal_area.hpp"],
     [("results per partition are aggregated", "unary_aggregate_operation.hpp, definition/zonal_operation.hpp"),
      ("clumps of neighbouring partitions are merged", "definition/clump.hpp")],
     level="model_checking", technique=MC % "grids, partitionings and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; a cell by cell oracle on the whole array")

prop("P27", "Flow routing moves material along the whole network, whatever the partitioning",
     "Given a flow direction network without cycles, inflow_count, accu, accu_threshold, accu_capacity, accu_fraction, accu_trigger, kinematic_wave, upstream, downstream and "
     "downstream_distance give each cell the result of a walk over the network from the ridges to the sinks: the number of upstream neighbours; the material of the cell "
     "itself plus all that flows out of its upstream neighbours; what flows out and what is left behind given a threshold, capacity, fraction or trigger (so that no material gets "
     "lost or is created); the discharge that solves the kinematic wave equation; the values of the neighbours upstream and downstream, and the distance to the downstream cell. "
     "No-data in the material or the parameters makes the cell itself and all cells downstream no-data, and cells without a flow direction are no-data. This holds for every "
     "partitioning of the arrays, including partitions of a single row or column, for every number of localities, and for every order in which tasks are executed and messages are "
     "exchanged between partitions; all operations finish.",
     ["inputs", "schedules"], "all networks of small arrays, patterns in larger arrays, all partitionings, all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests use a few hand-made networks and one schedule. Material crosses partition borders through channels, at moments that "
     "depend on the network and on the schedule; a partition that waits for, or forgets, a single message deadlocks or loses material.",
     [FA + "definition/accu.hpp", FA + "definition/accumulating_router.hpp", FA + "definition/inflow_count.hpp", FA + "detail/inflow_count.hpp", FA + "definition/accu_threshold.hpp",
      FA + "definition/accu_capacity.hpp", FA + "definition/accu_fraction.hpp", FA + "definition/accu_trigger.hpp", FA + "definition/kinematic_wave.hpp",
      FA + "definition/upstream.hpp", FA + "definition/downstream.hpp", FA + "definition/downstream_distance.hpp"],
     [("material is accumulated within partitions, and streams between partitions through channels", "definition/accumulating_router.hpp"),
      ("the number of cells draining into a cell, also those in neighbouring partitions, tells when it is ready", "definition/inflow_count.hpp, detail/inflow_count.hpp")],
     level="model_checking", technique=MC % "flow direction networks, partitionings and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; the oracle is a sequential walk over the network")

prop("P28", "Routes visit the cells from high to low values, across all partitions",
     "decreasing_order(value[, n]) returns a single route, and decreasing_order(zone, value[, n]) a route for each zone that contains valid values. A route visits the n cells with the "
     "highest values (or all, if there are fewer), each once and in decreasing order of their value, however these cells are distributed over the partitions. Cells without a zone or value "
     "are in no route, and without valid values there is no route. The fragments a route consists of, one per visit of a partition, can be followed from the "
     "start of the route to its end, and no other fragments exist. first_n(route, m) marks the first m cells of each route with one, and all other cells as no-data. This "
     "holds for every array, partitioning, number of localities, and order in which tasks are executed; all operations finish.",
     ["inputs", "schedules"], "all small arrays of zones and values, patterns in larger arrays, all partitionings and lengths, all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests use one hand-made array, with positive values only, and one schedule. A route is recorded by partitions handing "
     "over to each other while other routes are being recorded, and walks are started while partitions are still being set up.",
     [FA + "definition/decreasing_order.hpp", FA + "definition/first_n.hpp", FA + "walk.hpp", "source/framework/partitioned_route/include/lue/framework/serial_route.hpp",
      "source/framework/partitioned_route/include/lue/framework/partitioned_route/server/serial_route_partition_impl.hpp"],
     [("partitions record route fragments and hand over to the partition with the next highest value", "definition/decreasing_order.hpp"),
      ("walks follow the fragments from partition to partition", "walk.hpp, definition/first_n.hpp")],
     level="model_checking", technique=MC % "arrays, partitionings and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the framework's headers are compiled against a stand-in of HPX that enumerates task schedules; the oracle sorts the cells of the whole array")

FMD = "source/framework/model/include/lue/framework/model/"
prop("P29", "Models are simulated step by step, never with more steps in flight than allowed",
     "run_deterministic initializes the progressor and the model, simulates time steps 1 up to and including the number of time steps, in order, each time followed by telling the progressor, "
     "and finalizes the model and the progressor. run_stochastic does this for sample 1 up to and including the number of samples, each time between preprocessing and postprocessing "
     "of model and progressor. simulate does the time steps in a range that can start anywhere. Simulating a time step returns a future, as the work is done by asynchronous tasks. At no moment "
     "more time steps have been started and not finished than the rate limit, if there is one. When a model is finalized, or a function returns, the work of all time steps has been finished. This "
     "holds whatever a time step does (nothing that takes time, tasks, tasks that depend on the previous time step), and for every order in which tasks are executed, also when time steps "
     "finish in another order than they were started in; the functions always return.",
     ["inputs", "schedules"], "all combinations of few behaviours of few time steps, all rate limits, all orders of tasks with few deviations",
     "The framework is not even built by the tests here; its own tests count calls of a model that does nothing, so that no time step is ever in flight. How many of them are depends on the "
     "moment at which tasks happen to finish.",
     [FMD + "simulate.hpp", FMD + "model.hpp", FMD + "progressor.hpp", "source/framework/model/source/model.cpp", "source/framework/model/source/progressor.cpp"],
     [("a semaphore slides along with the time steps that have finished", "simulate.hpp: simulate, attach_signaller")],
     level="model_checking", technique=MC % "models, rate limits and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the real code is compiled against a stand-in of HPX that enumerates task schedules")

FIO = "source/framework/io/include/lue/framework/io/"
prop("P30", "Models read and write arrays in datasets as if they did so step by step",
     "from_lue and to_lue are asynchronous: a model asks for reading and writing arrays from / to properties in a LUE dataset, and continues. The result is as if each call finished before the "
     "next one started: a read returns what the last write before it (or the dataset as it was) contains, never what a later write puts there, and in the end the dataset contains what was "
     "written last. This holds for constant and variable rasters, for each time step, for the whole array or a hyperslab, for every element type and value, for every "
     "partitioning of the array, number of localities, and order in which tasks happen to be executed. A dataset is never opened for writing while it is open elsewhere, or opened while it is open for writing. Once the future "
     "returned by to_lue is ready the dataset is closed and can be opened for writing, and once all is finished nothing remains open. If writing a part of an array fails, then the future says so. All calls finish.",
     ["inputs", "schedules", "fault_sequences"], "all programs of few reads and writes, all partitionings of small arrays, all element types, all orders of tasks with few deviations, each failing write",
     "The framework is not even built by the tests here; its own tests run a single schedule, and upstream describes failures in five percent of the cases as not understood. When a file is opened and closed depends on the schedule.",
     [FIO + "from_lue.hpp", FIO + "to_lue.hpp", FIO + "serializer.hpp", FIO + "lue.hpp", FIO + "util.hpp", "source/framework/io/source/lue.cpp", "source/framework/io/source/dataset.cpp"],
     [("reads and writes of the same dataset wait for each other", "lue.cpp, from_lue.hpp: from_lue, to_lue.hpp: to_lue"),
      ("localities open the dataset one after the other, and close it before they say so", "to_lue.hpp: write_partitions_*, from_lue.hpp: read_partitions_*")],
     level="model_checking", technique=MC % "programs of reads and writes, partitionings and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the real code, including HDF5, is run with a stand-in of HPX that enumerates task schedules; serial I/O with a thread-safe HDF5 library, as is the case here")

prop("P31", "Models read and write GDAL rasters faithfully",
     "from_gdal returns an array with the cells of the raster, or of the part of it that is selected by a hyperslab, for every element type, raster, partitioning of the array, number of localities, "
     "and order in which tasks are executed. Cells that contain the raster's no-data value contain the array's no-data value, all others are as they are in the raster; without a no-data "
     "value in the raster, all cells are as they are. Hyperslabs that do not fit the raster are refused. When the future returned by to_gdal is ready, the raster is closed and contains the array's cells, all of them, "
     "the element type's no-data value, and the transformation and spatial reference of the clone, or a default transformation; the creation options are used. Partitions are written in whatever "
     "order they become ready, but the raster is never open in another task while a partition is written, and no two tasks use the same open raster at the same time. Failures to open, read or write the raster, a failing partition, and a clone that is not there or has another "
     "shape, are reported. All calls finish, and no raster remains open.",
     ["inputs", "schedules", "fault_sequences"], "all rasters and partitionings up to a size, all hyperslabs, element types, kinds of no-data values, orders of tasks with few deviations, each failing call",
     "The framework is not even built by the tests here; its own tests read and write a few rasters, with a single schedule, without no-data values set by others, clones and failures.",
     [FIO + "gdal.hpp", "source/framework/io/source/gdal.cpp.in", "source/framework/core/include/lue/framework/core/hyperslab.hpp"],
     [("partitions are read one after the other, relative to the hyperslab", "gdal.cpp.in: read_partition_per_locality, ReadPartition::instantiate"),
      ("no-data values are converted", "gdal.cpp.in: from_gdal, SpecialValuePolicy"),
      ("partitions are written once they are ready, one after the other", "gdal.cpp.in: to_gdal")],
     level="model_checking", technique=MC % "rasters, partitionings, programs of reads and writes, failing calls and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the real code, including GDAL, is run with a stand-in of HPX that enumerates task schedules; cells and settings are compared with what GDAL's own API says")

prop("P32", "Operations on fields do what the operation does for what the fields contain",
     "In the C++ API of the modelling framework, a field contains an array, a scalar or a literal. For each combination of these and of element types, an operation on fields, also when written as an operator, evaluates the "
     "operation it is named after, with the arguments in the order in which they are passed, for the arrays, scalars and literals the fields contain. The result is a field with an array, if any of the arguments contains an array, "
     "and a scalar otherwise, with the element type of the operation's result: the arguments' type, or the type for booleans in case of comparisons and logical operations. Combinations the operation is "
     "not defined for (fields with different element types, element types the operation does not support, a condition that is not a boolean array) are refused with an exception; no conversions are done. Arrays "
     "and scalars are created with the shape, partition shape, and value passed in. Rasters are read as fields with the element type of the raster, or are refused if that type is not supported, and a field with an array, of any element type, can be written "
     "to a raster, given a clone or not, after which the raster contains the array.",
     ["inputs", "schedules"], "all combinations of kinds of fields and element types for all arguments of all operations, all data types of rasters, orders of tasks with few deviations",
     "The API's tests call each operation for one or a few combinations of empty arrays and only look at the type of the result; the framework is not even built by the tests here.",
     ["source/framework/api/cxx/include/lue/framework/api/cxx/operator.hpp", "source/framework/api/cxx/source/io.cpp", "source/framework/api/cxx/source/create_array.cpp",
      "source/framework/api/cxx/source/local/where3.cpp"],
     [("the operation for a combination of arguments is selected, or the one that refuses it", "source/framework/api/cxx/source: all operations"),
      ("operators", "source/framework/api/cxx/include/lue/framework/api/cxx/operator.hpp"),
      ("reading and writing rasters, given their type", "source/framework/api/cxx/source/io.cpp")],
     level="model_checking", technique=MC % "combinations of kinds of fields and element types for all arguments of all operations, and task schedules (stateless, with a controlled scheduler in place of HPX)",
     note="the real code, including GDAL, is run with a stand-in of HPX that enumerates task schedules; the API is generated for three element types; the results are compared with the operations computed here")
