From ceb21b535c12dab60725a01925b39bbf34f08741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 01/51] fix: number of elements in a hyperslab does not depend
 on the stride

Filling a strided hyperslab failed because the number of selected elements
was multiplied by the stride.
---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From 3ab865b2fecb4df6c27cffa4819c63a8c8113628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 02/51] fix: support reading 16 bit integers through the Python
 API

Arrays of 16 bit integers could be created and written, but not read.
---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..d54023a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -280,6 +280,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -346,6 +354,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From 9eff1e72e9134ca509132d7bc50abc8ebc21b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 03/51] fix: verify the number of values when assigning an
 array to an array item

Assigning an array with too few values to array[index] read values past the
end of the array passed in.
---
 source/data_model/python/source/core/array.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d54023a..8982d0f 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -570,7 +570,7 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
+    void set_item(Array& array, std::int64_t const index, T const* values, std::size_t const nr_values)
     {
         hdf5::Shape const shape{array.shape()};
         hdf5::Hyperslab hyperslab{shape};
@@ -579,6 +579,15 @@ namespace lue::data_model {
 
         update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
+        if (nr_values != hyperslab.nr_elements())
+        {
+            throw std::runtime_error(
+                std::format(
+                    "Number of values to assign ({}) must equal the number of elements selected ({})",
+                    nr_values,
+                    hyperslab.nr_elements()));
+        }
+
         write_to_array(array, hyperslab, values);
     }
 
@@ -589,7 +598,11 @@ namespace lue::data_model {
         std::int64_t const index,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
+        set_item(
+            array,
+            index,
+            static_cast<T const*>(values.request().ptr),
+            static_cast<std::size_t>(values.size()));
     }
 
 
-- 
2.43.0


From 0606444611af348268279cb08828edc2776efa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 04/51] fix: writing and reading arrays of strings through the
 Python API

Only the first string of an array ended up in the dataset, when reading only
the first string was positioned correctly, slices were ignored when writing,
and memory not belonging to the slice read was reclaimed. Reading slices of
multi-dimensional string arrays and the dtype of a string array resulted in a
failing assertion.
---
 .../data_model/python/source/conversion.cpp   |  5 +
 .../data_model/python/source/core/array.cpp   | 96 +++++++++----------
 2 files changed, 48 insertions(+), 53 deletions(-)

diff --git a/source/data_model/python/source/conversion.cpp b/source/data_model/python/source/conversion.cpp
index cd8c869..12f11db 100644
--- a/source/data_model/python/source/conversion.cpp
+++ b/source/data_model/python/source/conversion.cpp
@@ -113,6 +113,11 @@ namespace lue {
 
     py::dtype hdf5_type_id_to_numpy_dtype(hdf5::Datatype const datatype)
     {
+        if (datatype.is_string())
+        {
+            return py::dtype{"U"};
+        }
+
         assert(datatype.is_native());
 
         py::dtype dtype;
diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 8982d0f..7824b04 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -190,7 +190,11 @@ namespace lue::data_model {
             // must contain fixed length Unicode strings (measured in UCS4 encoded code
             // points). Shorter strings are padded with nulls.
 
-            assert(slice_shape.size() == 1);
+            if (slice_shape.size() != 1)
+            {
+                throw std::runtime_error("Currently, only 1-D string arrays are supported");
+            }
+
             auto const nr_strings = slice_shape[0];
 
             // Read the strings in a data structure of our own
@@ -202,7 +206,8 @@ namespace lue::data_model {
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{
+                memory_datatype, hdf5::create_dataspace(slice_shape), values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
@@ -219,24 +224,15 @@ namespace lue::data_model {
                     std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
             // Maximum number of code points per NumPy Unicode string. This happens when
             // a single character is represented by a single byte on the HDF5 side (UTF8).
             std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
 
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
-
-            // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
+            // Buffer for all Unicode strings, back to back. In a NumPy Unicode string, each
+            // code point uses UTF32 encoding (~= UCS4).
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
             std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+                py_buffer_utf32.get(), py_buffer_utf32.get() + (nr_strings * max_nr_code_points), '\0');
 
             {
                 py::str py_string{};
@@ -253,13 +249,12 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
-                        nullptr)
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) == nullptr)
                     {
                         throw py::error_already_set();
                     }
 
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
+                    buffer_ptr += max_nr_code_points;
                 }
             }
 
@@ -954,9 +949,17 @@ namespace lue::data_model {
 
                     auto const nr_strings = slice_shape[0];
 
-                    // Copy strings to new buffer that is compatible with HDF5
-                    // variable length strings
-                    auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
+                    if (info.ndim != 1 || static_cast<hdf5::Shape::value_type>(info.shape[0]) != nr_strings)
+                    {
+                        throw std::runtime_error(
+                            std::format(
+                                "Number of strings to assign must equal the number of elements selected ({})",
+                                nr_strings));
+                    }
+
+                    // Copy strings to new collection, from which a buffer can be created that
+                    // is compatible with HDF5 variable length strings
+                    std::vector<std::string> strings_utf8(nr_strings);
 
                     if (utf8_encoded_strings)
                     {
@@ -966,26 +969,20 @@ namespace lue::data_model {
                         std::size_t const nr_bytes_per_string_utf8 = info.itemsize;
                         assert(nr_bytes_per_string_utf8 == std::stoul(info.format));
 
-                        // Buffer is a 1-D array with all strings back to back. The
+                        // Buffer is a 1-D array with all strings, info.strides[0] bytes apart. The
                         // maximum length of each string is the same:
                         // nr_bytes_per_string_utf8. Shorter strings are padded with nulls.
                         char const* py_buffer_utf8 = static_cast<char const*>(info.ptr);
 
                         for (std::size_t i = 0; i < nr_strings; ++i)
                         {
-                            auto const start_of_string_utf8 = py_buffer_utf8 + (i * nr_bytes_per_string_utf8);
+                            auto const start_of_string_utf8 =
+                                py_buffer_utf8 + (static_cast<py::ssize_t>(i) * info.strides[0]);
 
                             // Copy bytes and trim tailing null characters
-                            std::string string_utf8{start_of_string_utf8, nr_bytes_per_string_utf8};
+                            strings_utf8[i].assign(start_of_string_utf8, nr_bytes_per_string_utf8);
                             boost::algorithm::trim_right_if(
-                                string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                            // Make space for the UTF8 encoded string + null character. Copy
-                            // the string and append with a null.
-                            hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                            auto hdf5_string = hdf5_buffer.get()[i];
-                            std::ranges::copy(string_utf8, hdf5_string);
-                            hdf5_string[string_utf8.size()] = '\0';
+                                strings_utf8[i], [](char const c) -> bool { return c == '\0'; });
                         }
                     }
                     else
@@ -1006,18 +1003,20 @@ namespace lue::data_model {
                         assert(nr_code_points == std::stoul(info.format));
 #endif
 
-                        // Buffer is a 1-D array with all strings back to back. The maximum
+                        // Buffer is a 1-D array with all strings, info.strides[0] bytes apart. The maximum
                         // length of each string is the same: nr_code_points. Shorter strings
                         // are padded with nulls.
                         {
-                            auto const* py_buffer_utf32 = static_cast<Py_UCS4 const*>(info.ptr);
-                            Py_UCS4 const* start_of_string_utf32{py_buffer_utf32};
+                            char const* py_buffer_utf32 = static_cast<char const*>(info.ptr);
 
                             for (std::size_t i = 0; i < nr_strings; ++i)
                             {
+                                char const* start_of_string_utf32 =
+                                    py_buffer_utf32 + (static_cast<py::ssize_t>(i) * info.strides[0]);
+
                                 py::str py_string_utf32{
                                     py::reinterpret_steal<py::str>(::PyUnicode_DecodeUTF32(
-                                        (char const*)start_of_string_utf32,
+                                        start_of_string_utf32,
                                         nr_bytes_per_string_utf32,
                                         nullptr,
                                         nullptr))};
@@ -1037,29 +1036,20 @@ namespace lue::data_model {
                                     throw py::error_already_set();
                                 }
 
-                                auto string_utf8 = py_string_utf8.cast<std::string>();
+                                strings_utf8[i] = py_string_utf8.cast<std::string>();
                                 boost::algorithm::trim_right_if(
-                                    string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                                // Make space for the UTF8 encoded string + null
-                                // character. Copy the string and append with a null.
-                                hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                                auto hdf5_string = hdf5_buffer.get()[i];
-                                std::ranges::copy(string_utf8, hdf5_string);
-                                hdf5_string[string_utf8.size()] = '\0';
+                                    strings_utf8[i], [](char const c) -> bool { return c == '\0'; });
                             }
-
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
                         }
                     }
 
-                    array.write(hdf5_buffer.get());
+                    std::vector<char const*> hdf5_buffer(nr_strings);
+                    std::ranges::transform(
+                        strings_utf8,
+                        hdf5_buffer.begin(),
+                        [](std::string const& string) -> char const* { return string.c_str(); });
 
-                    // TODO Make sure this happens also in case of errors
-                    for (std::size_t i = 0; i < nr_strings; ++i)
-                    {
-                        delete[] hdf5_buffer.get()[i];
-                    }
+                    array.write(hyperslab, hdf5_buffer.data());
                 })
 
             ;
-- 
2.43.0


From 966316d1a1d212fa40dfd4de00a5f9fe73ad80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 05/51] fix: reject names of groups which are not the name of a
 direct member

Items with a slash in their name ended up nested in another item or in the root
of the file. They were not part of the collection anymore after reopening the
dataset.
---
 source/data_model/hdf5/source/group.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/hdf5/source/group.cpp b/source/data_model/hdf5/source/group.cpp
index 9835a60..03b0180 100644
--- a/source/data_model/hdf5/source/group.cpp
+++ b/source/data_model/hdf5/source/group.cpp
@@ -291,9 +291,21 @@ namespace lue::hdf5 {
         @brief      Create a group named @a name within @a parent
         @param      parent Group to create group in
         @param      name Name of group to create
+        @exception  std::runtime_error In case @a name is not the name of a direct member of @a parent
+
+        HDF5 interprets a name containing slashes as a path and ignores everything after the first
+        null character. Such a group would end up somewhere else, or under a different name.
     */
     auto create_group(Group& parent, std::string const& name) -> Group
     {
+        using namespace std::string_literals;
+
+        if (name.find_first_of("/\0"s) != std::string::npos)
+        {
+            throw std::runtime_error(
+                std::format("Cannot create group {} at {}: invalid name", name, parent.id().pathname()));
+        }
+
         if (group_exists(parent, name))
         {
             throw std::runtime_error(std::format("Group {} already exists", name));
-- 
2.43.0


From b3b058e116ecfe826d83fe6fd37e8579974e08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 06/51] fix: tie the lifetime of objects returned by the Python
 API to their parents

Objects obtained by item and attribute access, and from the add_property
overloads returning different kinds of properties, referred to memory owned
by a parent that could be gone already. Accessing a phenomenon as an attribute
of a universe returned a copy, which did not get to see additions.
---
 source/data_model/python/source/dataset.cpp   | 13 +++-
 .../python/source/object/phenomenon.cpp       |  8 +-
 .../python/source/object/property_set.cpp     | 74 ++++++++++++-------
 .../python/source/object/universe.cpp         |  9 ++-
 4 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..7e9ec5a 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -123,17 +123,24 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Dataset& dataset, std::string const& name)
+                    [](py::object const& self, std::string const& name)
                     {
+                        auto& dataset = self.cast<Dataset&>();
                         py::object result = py::none();
 
                         if (dataset.universes().contains(name))
                         {
-                            result = py::cast(&dataset.universes()[name]);
+                            result = py::cast(
+                                &dataset.universes()[name],
+                                py::return_value_policy::reference_internal,
+                                self);
                         }
                         else if (dataset.phenomena().contains(name))
                         {
-                            result = py::cast(&dataset.phenomena()[name]);
+                            result = py::cast(
+                                &dataset.phenomena()[name],
+                                py::return_value_policy::reference_internal,
+                                self);
                         }
                         else
                         {
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..cf985ad 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -220,8 +220,9 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Phenomenon& phenomenon, std::string const& property_set_name)
+                    [](py::object const& self, std::string const& property_set_name)
                     {
+                        auto& phenomenon = self.cast<Phenomenon&>();
                         auto const property_set_found =
                             phenomenon.property_sets().contains(property_set_name);
                         auto const collection_property_set_found =
@@ -249,7 +250,10 @@ namespace lue {
                         auto& property_sets = property_set_found ? phenomenon.property_sets()
                                                                  : phenomenon.collection_property_sets();
 
-                        return py::cast(&property_sets[property_set_name]);
+                        return py::cast(
+                            &property_sets[property_set_name],
+                            py::return_value_policy::reference_internal,
+                            self);
                     },
                     py::return_value_policy::reference_internal)
 
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..ae4e278 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -166,11 +166,14 @@ namespace lue {
 
 
         // Return a py::object to a property of the right type. Note that a
-        // reference to the property is stored. The lifetime of this object
-        // is tied to the properties instance passed in.
+        // reference to the property is stored. The object keeps the parent
+        // alive, which must own the properties instance passed in.
         // TODO Refactor this with property_new
-        py::object property_reference(Properties& properties, std::string const& name)
+        py::object property_reference(Properties& properties, std::string const& name, py::handle parent)
         {
+            auto const reference = [parent](auto& property) -> py::object
+            { return py::cast(&property, py::return_value_policy::reference_internal, parent); };
+
             py::object property = py::none();
             auto const shape_per_object = properties.shape_per_object(name);
             auto const value_variability = properties.value_variability(name);
@@ -184,13 +187,13 @@ namespace lue {
                         case ShapePerObject::same:
                         {
                             using Collection = same_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = reference(properties.collection<Collection>()[name]);
                             break;
                         }
                         case ShapePerObject::different:
                         {
                             using Collection = different_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = reference(properties.collection<Collection>()[name]);
                             break;
                         }
                     }
@@ -211,13 +214,13 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = same_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = reference(properties.collection<Collection>()[name]);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = same_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = reference(properties.collection<Collection>()[name]);
                                     break;
                                 }
                             }
@@ -232,13 +235,13 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = different_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = reference(properties.collection<Collection>()[name]);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = different_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = reference(properties.collection<Collection>()[name]);
 
                                     break;
                                 }
@@ -324,8 +327,8 @@ namespace lue {
 
                 .def(
                     "__getitem__",
-                    [](Properties& properties, std::string const& name)
-                    { return property_reference(properties, name); },
+                    [](py::object const& self, std::string const& name)
+                    { return property_reference(self.cast<Properties&>(), name, self); },
                     py::return_value_policy::reference_internal)
 
                 .def_property_readonly(
@@ -465,8 +468,10 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](PropertySet& property_set, std::string const& property_name)
+                    [](py::object const& self, std::string const& property_name)
                     {
+                        auto& property_set = self.cast<PropertySet&>();
+
                         if (!property_set.properties().contains(property_name))
                         {
                             // TODO We are throwing a KeyError here. Should be
@@ -480,7 +485,7 @@ namespace lue {
                                 std::format("Property set does not contain property '{}'", property_name));
                         }
 
-                        return property_reference(property_set.properties(), property_name);
+                        return property_reference(property_set.properties(), property_name, self);
                     },
                     py::return_value_policy::reference_internal)
 
@@ -544,7 +549,7 @@ namespace lue {
 
                 .def(
                     "add_property",
-                    [](PropertySet& property_set,
+                    [](py::object const& self,
                        std::string const& name,
                        py::object const& dtype_args,
                        py::tuple const& shape,
@@ -559,6 +564,8 @@ namespace lue {
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
                         auto const shape_ = tuple_to_shape(shape);
 
+                        auto& property_set = self.cast<PropertySet&>();
+
                         py::object property = py::none();
 
                         switch (value_variability)
@@ -566,15 +573,21 @@ namespace lue {
                             case ValueVariability::constant:
                             {
                                 using Property = same_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    self);
                                 break;
                             }
                             case ValueVariability::variable:
                             {
                                 using Property = same_shape::constant_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    self);
                                 break;
                             }
                         }
@@ -638,7 +651,7 @@ namespace lue {
 
                 .def(
                     "add_property",
-                    [](PropertySet& property_set,
+                    [](py::object const& self,
                        std::string const& name,
                        py::object const& dtype_args,
                        Rank const rank,
@@ -653,6 +666,8 @@ namespace lue {
                         auto const datatype_ =
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
 
+                        auto& property_set = self.cast<PropertySet&>();
+
                         py::object property = py::none();
 
                         switch (shape_per_object)
@@ -672,8 +687,11 @@ namespace lue {
                                     case ShapeVariability::variable:
                                     {
                                         using Property = same_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                 }
@@ -687,15 +705,21 @@ namespace lue {
                                     case ShapeVariability::constant:
                                     {
                                         using Property = different_shape::constant_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                     case ShapeVariability::variable:
                                     {
                                         using Property = different_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                 }
diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 5f6d701..c41119a 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -116,8 +116,10 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Universe& universe, std::string const& phenomenon_name)
+                    [](py::object const& self, std::string const& phenomenon_name)
                     {
+                        auto& universe = self.cast<Universe&>();
+
                         if (!universe.phenomena().contains(phenomenon_name))
                         {
                             // TODO We are throwing a KeyError here. Should be
@@ -131,7 +133,10 @@ namespace lue {
                                 std::format("Universe does not contain phenomenon '{}'", phenomenon_name));
                         }
 
-                        return py::cast(universe.phenomena()[phenomenon_name]);
+                        return py::cast(
+                            &universe.phenomena()[phenomenon_name],
+                            py::return_value_policy::reference_internal,
+                            self);
                     },
                     py::return_value_policy::reference_internal)
 
-- 
2.43.0


From 5dfa16953128f8684098a35dd9c4c4a454619602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 07/51] fix: expanding different shape values of a rank other
 than two

The shapes passed in as a list of sizes were assumed to be two-dimensional. Also,
object arrays of a same shape / variable shape value opened by index use the
memory datatype of the value.
---
 source/data_model/cxx/source/array/different_shape/value.cpp | 5 ++++-
 .../cxx/source/array/same_shape/variable_shape/value.cpp     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..94d9e29 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,10 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(
+                ids[object_idx],
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+                hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 016542c02066274c33eb2a183d57240b420c0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 08/51] fix: chunk shapes of large multi-dimensional values
 exceed the upper limit

---
 source/data_model/hdf5/source/chunk.cpp | 29 ++++++++++++-------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/source/data_model/hdf5/source/chunk.cpp b/source/data_model/hdf5/source/chunk.cpp
index 895b7f2..878f7ff 100644
--- a/source/data_model/hdf5/source/chunk.cpp
+++ b/source/data_model/hdf5/source/chunk.cpp
@@ -70,14 +70,9 @@ namespace lue::hdf5 {
             result.resize(value_shape.size() + 1, 0);
             result[0] = 1;
 
-            // Determine the size of each chunk dimension (except for the first one, which is 1) in case the
-            // chunk is square. These are all in bytes.
-            double const chunk_size_bytes =
-                static_cast<double>(value_size_bytes) * nr_values_in_largest_chunk;
-            double const chunk_size_bytes_per_dimension =
-                std::pow(chunk_size_bytes, 1.0 / static_cast<double>(value_shape.size()));
-            double chunk_size_elements_per_dimension =
-                chunk_size_bytes_per_dimension / static_cast<double>(size_of_element);
+            // Number of elements that fit in the largest chunk
+            auto nr_elements =
+                std::max(upper_chunk_size_limit() / size_of_element, static_cast<std::size_t>(1));
 
             // Adjust the shape of the chunk to the shape of the value. If the shape has dimensions with
             // extents smaller than the chunk size per dimension calculated above, make the chunk size equal
@@ -99,19 +94,23 @@ namespace lue::hdf5 {
                 { return std::get<0>(lhs) < std::get<0>(rhs); });
 
             // Iterate over the dimensions, in increasing extent order.
+            auto nr_dimensions = tuples.size();
+
             for (auto const& tuple : tuples)
             {
                 auto const extent = std::get<0>(tuple);
                 auto const index = std::get<1>(tuple);
 
-                // Size of dimension, in elements.
-                auto const chunk_size_elements_of_dimension = std::min(
-                    static_cast<Shape::value_type>(std::floor(chunk_size_elements_per_dimension)), extent);
+                // Size of dimension, in elements, in case the rest of the chunk is square. If the extent of
+                // the value in the current dimension is lower than that, more elements remain for the next
+                // dimensions.
+                auto const chunk_size_elements_per_dimension = static_cast<Shape::value_type>(std::floor(
+                    std::pow(static_cast<double>(nr_elements), 1.0 / static_cast<double>(nr_dimensions))));
+                auto const chunk_size_elements_of_dimension =
+                    std::clamp<Shape::value_type>(chunk_size_elements_per_dimension, 1, extent);
 
-                // If the extent of the chunk in the current dimension is lower than the average one, we must
-                // enlarge the next chunk dimension extents.
-                chunk_size_elements_per_dimension *=
-                    chunk_size_elements_per_dimension / static_cast<double>(chunk_size_elements_of_dimension);
+                nr_elements /= chunk_size_elements_of_dimension;
+                --nr_dimensions;
 
                 result[index + 1] = chunk_size_elements_of_dimension;
                 assert(result[index + 1] <= value_shape[index]);
-- 
2.43.0


From b8ea2d81bfef22bf1f389852c512969a8f5503f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 09/51] fix: comparison of clocks takes the epoch into account,
 and orders clocks

---
 source/data_model/cxx/include/lue/core/time/epoch.hpp | 3 +++
 source/data_model/cxx/source/core/clock.cpp           | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/include/lue/core/time/epoch.hpp b/source/data_model/cxx/include/lue/core/time/epoch.hpp
index 998022b..a973e16 100644
--- a/source/data_model/cxx/include/lue/core/time/epoch.hpp
+++ b/source/data_model/cxx/include/lue/core/time/epoch.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "lue/data_model/export.hpp"
+#include <compare>
 #include <cstdint>
 #include <optional>
 #include <string>
@@ -60,6 +61,8 @@ namespace lue::data_model::time {
 
             auto operator=(Epoch&& other) -> Epoch& = default;
 
+            auto operator<=>(Epoch const& other) const = default;
+
             auto kind() const -> Kind;
 
             auto origin() const -> std::optional<std::string> const&;
diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 3baa29e..1c65588 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -1,4 +1,5 @@
 #include "lue/core/clock.hpp"
+#include <tuple>
 
 
 namespace lue::data_model {
@@ -41,7 +42,7 @@ namespace lue::data_model {
 
     auto Clock::operator==(Clock const& other) const -> bool
     {
-        return _unit == other._unit && _nr_units == other._nr_units;
+        return _epoch == other._epoch && _unit == other._unit && _nr_units == other._nr_units;
     }
 
 
@@ -53,7 +54,7 @@ namespace lue::data_model {
 
     auto Clock::operator<(Clock const& other) const -> bool
     {
-        return _unit < other._unit || _nr_units < other._nr_units;
+        return std::tie(_unit, _nr_units, _epoch) < std::tie(other._unit, other._nr_units, other._epoch);
     }
 
 }  // namespace lue::data_model
-- 
2.43.0


From d61287e6be21b37e2f54a18eea2afa4569ab9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 10/51] fix: close the datatype of an attribute when the
 attribute is destructed

Every attribute opened leaked a handle to its datatype, and making a copy of
the datatype, as Attributes::datatype does, resulted in a failing assertion.
---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From d826009da22d277eb6d13d7aa56d3c431850f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 11/51] fix: writing an attribute over one of another size or
 type

Values of another size or type than the one an attribute was created with were
truncated, or read from beyond the end of the new value. Replace the attribute
instead.
---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 32 +++++++++++++++++++
 .../hdf5/include/lue/hdf5/attributes.hpp      | 21 ++++++++++--
 source/data_model/hdf5/source/attributes.cpp  | 13 ++++++++
 3 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..f5c9c93 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -257,4 +257,36 @@ namespace lue::hdf5 {
         return attribute;
     }
 
+
+    namespace detail {
+
+        /*!
+            @brief      Return whether @a value can be written to @a attribute, and read back again
+        */
+        template<typename T>
+            requires(!std::is_base_of_v<std::vector<hsize_t>, T>)
+        auto attribute_corresponds(Attribute const& attribute, [[maybe_unused]] T const& value) -> bool
+        {
+            return attribute.datatype() == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   attribute.dataspace().nr_elements() == 1;
+        }
+
+
+        template<>
+        inline auto attribute_corresponds(Attribute const& attribute, std::string const& value) -> bool
+        {
+            return attribute.datatype() == create_datatype(value.size()) &&
+                   attribute.dataspace().nr_elements() == 1;
+        }
+
+
+        template<typename T>
+        auto attribute_corresponds(Attribute const& attribute, std::vector<T> const& value) -> bool
+        {
+            return attribute.datatype() == Datatype{NativeDatatypeTraits<T>::type_id()} &&
+                   attribute.dataspace().nr_elements() == static_cast<hssize_t>(value.size());
+        }
+
+    }  // namespace detail
+
 }  // namespace lue::hdf5
diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..12bc913 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,7 +22,8 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case an attribute named @a name
+                exists whose datatype or shape does not correspond with @a value, it is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
@@ -33,10 +34,24 @@ namespace lue::hdf5 {
                 {
                     create_attribute(_id, name, value);
                 }
-                else
+                else if (detail::attribute_corresponds(attribute(name), value))
                 {
                     attribute(name).write<T>(value);
                 }
+                else
+                {
+                    // The datatype and shape of an existing attribute cannot be changed. Once the new
+                    // attribute is stored successfully, let it take the place of the existing one.
+                    std::string new_name{name};
+
+                    do
+                    {
+                        new_name += "~";
+                    } while (exists(new_name));
+
+                    create_attribute(_id, new_name, value);
+                    replace(name, new_name);
+                }
             }
 
 
@@ -59,6 +74,8 @@ namespace lue::hdf5 {
 
         private:
 
+            void replace(std::string const& name, std::string const& new_name);
+
             //! Identifier of object owning the attributes
             Identifier _id;
     };
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..89dc8aa 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -60,4 +60,17 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Replace the attribute named @a name by the one named @a new_name
+        @exception  std::runtime_error In case the attribute cannot be replaced
+    */
+    void Attributes::replace(std::string const& name, std::string const& new_name)
+    {
+        if (H5Adelete(_id, name.c_str()) < 0 || H5Arename(_id, new_name.c_str(), name.c_str()) < 0)
+        {
+            throw std::runtime_error("Cannot replace attribute");
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From 97c8736c42ae40774c4a431087e647a6d49cca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 12/51] fix: opening a missing attribute raises instead of
 aborting

A dataset in which an attribute is missing made validation abort, instead of
reporting that the dataset is not valid.
---
 source/data_model/hdf5/source/attributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 89dc8aa..80950bc 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -42,11 +42,11 @@ namespace lue::hdf5 {
 
     /*!
         @brief      Return the attribute named @a name
+        @exception  std::runtime_error In case the attribute cannot be opened
     */
     auto Attributes::attribute(std::string const& name) const -> Attribute
     {
         assert(_id.is_valid());
-        assert(exists(name));
 
         return {_id, name};
     }
-- 
2.43.0


From 214d7ac77774d3b1fbfa250db2e91a70e6d3ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 13/51] fix: validation reports missing active object indices
 instead of aborting

---
 source/data_model/cxx/source/validate.cpp | 24 +++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..92bda36 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -347,18 +347,26 @@ namespace lue::data_model {
             std::vector<Index> active_object_idxs(active_object_index.nr_indices());
             active_object_index.read(active_object_idxs.data());
 
+            // Validation of the object tracker doesn't know that indices of
+            // active objects are required. They are in the case of
+            // different_shape::constant_shape::Value.
+            if (active_object_idxs.size() != active_object_ids.size())
+            {
+                issues.add_error(
+                    value.id(),
+                    std::format(
+                        "Number of active object indices in object tracker must be "
+                        "equal to the number of active object IDs ({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
+
             // Add an end index to ease the iteration over ranges of IDs
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
-            // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
-
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
                 auto const end_idx = active_set_idxs[i];
-- 
2.43.0


From 100179aef3ed08c305fb79fe6ea7c12614b221b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 14/51] fix: variable raster view tracks the object its
 phenomenon already has

---
 source/data_model/hl/source/raster_view.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..3136aac 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -739,6 +739,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From fe6aa2d696a2fc61ecc40231c93a2840308e6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 15/51] fix: adding a raster layer under the name of another
 property raises

---
 source/data_model/hl/source/raster_view.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 3136aac..18a08f2 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -283,6 +283,11 @@ namespace lue::data_model {
             auto& property_set{phenomenon.property_sets()[this->property_set_name()]};
             auto& properties{property_set.properties()};
 
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(std::format("Property {} already exists", name));
+            }
+
             auto& space_discretization_property{
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name]};
 
@@ -550,6 +555,11 @@ namespace lue::data_model {
             auto& property_set{phenomenon.property_sets()[this->property_set_name()]};
             auto& properties{property_set.properties()};
 
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(std::format("Property {} already exists", name));
+            }
+
             auto& time_discretization_property = properties.template collection<
                 same_shape::constant_shape::Properties>()[time_discretization_property_name];
             auto& space_discretization_property =
-- 
2.43.0


From a9a237369f5a5bccd8faf84fc6857cb91b717e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 16/51] fix: a space-discretized property is not the time
 discretization of a raster

---
 source/data_model/hl/source/raster_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 18a08f2..b7b1720 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -680,7 +680,7 @@ namespace lue::data_model {
                             auto const& value{discretization_property.value()};
 
                             if (!discretization_property.time_is_discretized() &&
-                                !discretization_property.time_is_discretized() && value.nr_arrays() == 1 &&
+                                !discretization_property.space_is_discretized() && value.nr_arrays() == 1 &&
                                 value.array_shape() == hdf5::Shape{1} &&
                                 value.file_datatype() ==
                                     hdf5::Datatype{
-- 
2.43.0


From e4d7b7d292e8f971bc707988f539afaadacf4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 17/51] fix: GDAL comparison and no-data values support signed
 8 and 64-bit integers

---
 source/data_model/gdal/include/lue/gdal/raster_band.hpp | 1 +
 source/data_model/gdal/source/compare_rasters.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..f78615b 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..67ec439 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,4 +1,5 @@
 #include "lue/gdal/compare_rasters.hpp"
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
 #include "lue/define.hpp"
-- 
2.43.0


From c348e737ab55ce56ac8d6d9a17afcbd95f2db2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 18/51] fix: comparing rasters considers all cells, whatever
 the layout in blocks

---
 .../data_model/gdal/include/lue/gdal/raster.hpp |  3 +++
 .../data_model/gdal/source/compare_rasters.cpp  | 17 ++++++++++++-----
 source/data_model/gdal/source/raster.cpp        |  7 +++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 67ec439..e132dc4 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -2,8 +2,10 @@
 #include "lue/gdal/configure.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
 #include <format>
 
@@ -64,9 +66,12 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. The block shapes of the bands can differ, and blocks
+            // can be larger than the raster. Iterate over windows of cells, which are the same for both bands.
             auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
+            auto const natural_block_shape{band1.block_shape()};
+            Shape const block_shape{
+                std::min(natural_block_shape[0], shape[0]), std::min(natural_block_shape[1], shape[1])};
             Blocks const blocks{shape, block_shape};
 
             std::vector<Element> values1(nr_elements(block_shape));
@@ -79,10 +84,12 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    Offset const offset{block_y * block_shape[0], block_x * block_shape[1]};
+                    auto const window_shape = blocks.shape_in_valid_cells({block_y, block_x});
+                    auto const nr_valid_cells = nr_elements(window_shape);
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(offset, window_shape, data_type_v<Element>, values1.data());
+                    band2.read(offset, window_shape, data_type_v<Element>, values2.data());
 
                     bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
 
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..7ceaf97 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,13 @@ namespace lue::gdal {
     }
 
 
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From b76f5096a977c7e9832d8312d924717befcbef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 19/51] fix: values assigned in Python keep their element type

Lists, tuples and NumPy scalars were converted to the element type of the
first overload able to represent them somehow: [1.5, 2.5] ended up as [1, 2]
and numpy.int8(-3) as 253. Integers from 2^63 could not be assigned.
---
 .../data_model/python/source/core/array.cpp   | 251 ++++++++++--------
 1 file changed, 133 insertions(+), 118 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 7824b04..b83570d 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -536,6 +536,91 @@ namespace lue::data_model {
     // }
 
 
+    template<typename T>
+    using Values = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
+
+    /*!
+        @brief      Return values to assign to elements of @a array as a NumPy array
+
+        Numbers and (nested) sequences are converted to the element type of @a array. Arrays are not.
+    */
+    static auto as_numpy_array(Array const& array, py::object const& values) -> py::array
+    {
+        auto const numpy{py::module_::import("numpy")};
+        auto const asarray{numpy.attr("asarray")};
+
+        if (py::isinstance(values, numpy.attr("ndarray")) || py::isinstance(values, numpy.attr("generic")))
+        {
+            return asarray(values);
+        }
+
+        return asarray(values, hdf5_type_id_to_numpy_dtype(array.memory_datatype()));
+    }
+
+
+    /*!
+        @brief      Call @a functor with the @a values, given their element type
+
+        An array with zero dimensions represents a number.
+    */
+    template<typename Functor>
+    void visit_values(py::array const& values, Functor&& functor)
+    {
+        auto const kind{values.dtype().kind()};
+        auto const size{values.itemsize()};
+
+        auto const is = [kind, size](char const kind_, py::ssize_t const size_) -> bool
+        { return kind == kind_ && size == size_; };
+
+        if (is('u', 1) || is('b', 1))
+        {
+            functor(Values<std::uint8_t>{values});
+        }
+        else if (is('i', 1))
+        {
+            functor(Values<std::int8_t>{values});
+        }
+        else if (is('u', 2))
+        {
+            functor(Values<std::uint16_t>{values});
+        }
+        else if (is('i', 2))
+        {
+            functor(Values<std::int16_t>{values});
+        }
+        else if (is('u', 4))
+        {
+            functor(Values<std::uint32_t>{values});
+        }
+        else if (is('i', 4))
+        {
+            functor(Values<std::int32_t>{values});
+        }
+        else if (is('u', 8))
+        {
+            functor(Values<std::uint64_t>{values});
+        }
+        else if (is('i', 8))
+        {
+            functor(Values<std::int64_t>{values});
+        }
+        else if (is('f', 2) || is('f', 4))
+        {
+            functor(Values<float>{values});
+        }
+        else if (is('f', 8))
+        {
+            functor(Values<double>{values});
+        }
+        else
+        {
+            throw py::type_error(
+                std::format("Values of unsupported dtype (kind={}, itemsize={})", kind, size));
+        }
+    }
+
+
     template<typename T>
     void set_item(Array& array, std::int64_t const index, T const value)
     {
@@ -588,16 +673,15 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(
-        Array& array,
-        std::int64_t const index,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
+    void set_item(Array& array, std::int64_t const index, Values<T> const& values)
     {
-        set_item(
-            array,
-            index,
-            static_cast<T const*>(values.request().ptr),
-            static_cast<std::size_t>(values.size()));
+        if (values.ndim() == 0)
+        {
+            set_item(array, index, *values.data());
+            return;
+        }
+
+        set_item(array, index, values.data(), static_cast<std::size_t>(values.size()));
     }
 
 
@@ -631,15 +715,18 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(
-        Array& array,
-        py::slice const& slice,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
+    void set_item(Array& array, py::slice const& slice, Values<T> const& values)
     {
+        if (values.ndim() == 0)
+        {
+            set_item(array, slice, *values.data());
+            return;
+        }
+
         hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
         auto const memory_dataspace = hdf5::create_dataspace(sizes);
 
-        set_item(array, memory_dataspace, slice, static_cast<T const*>(values.request().ptr));
+        set_item(array, memory_dataspace, slice, values.data());
     }
 
 
@@ -719,17 +806,20 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(
-        Array& array,
-        std::vector<py::object> const& indices,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
+    void set_item(Array& array, std::vector<py::object> const& indices, Values<T> const& values)
     {
+        auto const& [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
+
+        if (values.ndim() == 0)
+        {
+            write_to_array(array, hyperslab, *values.data());
+            return;
+        }
+
         hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
         auto const memory_dataspace = hdf5::create_dataspace(sizes);
 
-        auto const& [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
-
-        write_to_array(array, memory_dataspace, hyperslab, static_cast<T const*>(values.request().ptr));
+        write_to_array(array, memory_dataspace, hyperslab, values.data());
     }
 
 
@@ -811,111 +901,36 @@ namespace lue::data_model {
 
             .def(
                 "__setitem__",
-                [](Array& array, std::int64_t const index, py::int_ const& value) -> void
-                { set_item(array, index, std::int64_t{value}); })
+                [](Array& array, std::int64_t const index, py::object const& values) -> void
+                {
+                    visit_values(
+                        as_numpy_array(array, values),
+                        [&](auto const& values) -> void { set_item(array, index, values); });
+                })
 
             .def(
                 "__setitem__",
-                [](Array& array, std::int64_t const index, py::float_ const& value) -> void
-                { set_item(array, index, double{value}); })
-
-            // .def("__setitem__", [](
-            //         Array& array,
-            //         std::int64_t const index,
-            //         std::string const& value) {
-            //     set_item(array, index, value);
-            // })
+                [](Array& array, std::vector<py::object> const& indices, py::object const& values) -> void
+                {
+                    visit_values(
+                        as_numpy_array(array, values),
+                        [&](auto const& values) -> void { set_item(array, indices, values); });
+                })
 
             .def(
                 "__setitem__",
-                [](Array& array, py::slice const& slice, py::int_ const& value) -> void
-                { set_item(array, slice, std::int64_t{value}); })
+                [](Array& array, py::slice const& slice, py::object const& object) -> void
+                {
+                    py::array const values{as_numpy_array(array, object)};
 
-            .def(
-                "__setitem__",
-                [](Array& array, py::slice const& slice, py::float_ const& value) -> void
-                { set_item(array, slice, double{value}); })
-
-
-#define SETITEM_INTEGER(T)                                                                                   \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           std::int64_t const index,                                                                         \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, index, values); })
-
-
-#define SETITEM_SLICE(T)                                                                                     \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           py::slice const& slice,                                                                           \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, slice, values); })
-
-
-#define SETITEM_INDICES(T)                                                                                   \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           std::vector<py::object> const& indices,                                                           \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, indices, values); })
-
-
-            // clang-format off
-        SETITEM_INTEGER(uint8_t)
-        SETITEM_INTEGER(int8_t)
-        SETITEM_INTEGER(uint16_t)
-        SETITEM_INTEGER(int16_t)
-        SETITEM_INTEGER(uint32_t)
-        SETITEM_INTEGER(int32_t)
-        SETITEM_INTEGER(uint64_t)
-        SETITEM_INTEGER(int64_t)
-        SETITEM_INTEGER(float)
-        SETITEM_INTEGER(double)
-        // SETITEM_INTEGER(std::string)
-        // clang-format on
-
-#undef SET_ITEM_INTEGER
-
-            // clang-format off
-        SETITEM_SLICE(uint8_t)
-        SETITEM_SLICE(int8_t)
-        SETITEM_SLICE(uint16_t)
-        SETITEM_SLICE(int16_t)
-        SETITEM_SLICE(uint32_t)
-        SETITEM_SLICE(int32_t)
-        SETITEM_SLICE(uint64_t)
-        SETITEM_SLICE(int64_t)
-        SETITEM_SLICE(float)
-        SETITEM_SLICE(double)
-        // SETITEM_SLICE(std::string)
-        // clang-format on
-
-#undef SETITEM_SLICE
-
-            // clang-format off
-        SETITEM_INDICES(uint8_t)
-        SETITEM_INDICES(int8_t)
-        SETITEM_INDICES(uint16_t)
-        SETITEM_INDICES(int16_t)
-        SETITEM_INDICES(uint32_t)
-        SETITEM_INDICES(int32_t)
-        SETITEM_INDICES(uint64_t)
-        SETITEM_INDICES(int64_t)
-        SETITEM_INDICES(float)
-        SETITEM_INDICES(double)
-        // SETITEM_INDICES(std::string)
-        // clang-format on
-
-#undef SETITEM_INDICES
+                    if (values.dtype().kind() != 'S' && values.dtype().kind() != 'U')
+                    {
+                        visit_values(
+                            values, [&](auto const& values) -> void { set_item(array, slice, values); });
+
+                        return;
+                    }
 
-            .def(
-                "__setitem__",
-                [](Array& array, py::slice const& slice, py::array& values) -> void
-                {
                     auto const info = values.request();
 
                     // Verify values are strings
-- 
2.43.0


From 04056f5b1d0582db065df2d8d71306a516cc1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 20/51] fix: assigning strings to an array of numbers raises

The addresses of the strings were stored as numbers.
---
 source/data_model/python/source/core/array.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index b83570d..7e17dea 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -931,6 +931,11 @@ namespace lue::data_model {
                         return;
                     }
 
+                    if (!array.datatype().is_string())
+                    {
+                        throw std::runtime_error("Strings can only be assigned to arrays of strings");
+                    }
+
                     auto const info = values.request();
 
                     // Verify values are strings
-- 
2.43.0


From 229e1ab5e354e7fb1a4c8da2d3301899b5fd1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 21/51] fix: expanding different-shape values in Python
 supports arrays of any layout

The elements of arrays which are not contiguous were taken from the wrong
locations.
---
 source/data_model/python/source/different_shape/value.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..e49e4ea 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -29,8 +29,10 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID> const& ids,
-                           py::array_t<hdf5::Shape::value_type> const& shapes) -> Value&
+                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
+                           py::array_t<
+                               hdf5::Shape::value_type,
+                               py::array::c_style | py::array::forcecast> const& shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0


From c24777fb0769b00b86e117c1674f82e7e2432f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 22/51] fix: a byte order mark at the start of a string is kept

Strings assigned in Python lost it.
---
 source/data_model/python/source/core/array.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 7e17dea..ebb017b 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -9,6 +9,7 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 #include <algorithm>
+#include <bit>
 #include <format>
 #include <ranges>
 
@@ -1031,6 +1032,10 @@ namespace lue::data_model {
 
                             for (std::size_t i = 0; i < nr_strings; ++i)
                             {
+                                // Be explicit about the byte order, to prevent that a first code point that
+                                // equals a byte order mark is skipped
+                                int byte_order{std::endian::native == std::endian::little ? -1 : 1};
+
                                 char const* start_of_string_utf32 =
                                     py_buffer_utf32 + (static_cast<py::ssize_t>(i) * info.strides[0]);
 
@@ -1039,7 +1044,7 @@ namespace lue::data_model {
                                         start_of_string_utf32,
                                         nr_bytes_per_string_utf32,
                                         nullptr,
-                                        nullptr))};
+                                        &byte_order))};
 
                                 if (!py_string_utf32)
                                 {
-- 
2.43.0


From 9ba6c5f08fb282f17443ac5a9bb652dace446aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 23/51] fix: reading strings that have not been written does
 not crash

Such elements are null in HDF5. They are read as empty strings.
---
 source/data_model/python/source/core/array.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index ebb017b..08e0b0b 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -212,6 +212,10 @@ namespace lue::data_model {
 
             array.read(hyperslab, values_read.get());
 
+            // Elements that have not been written yet are null. Treat them as empty strings.
+            auto const string_read = [&values_read](std::size_t const idx) -> char const*
+            { return values_read[idx] != nullptr ? values_read[idx] : ""; };
+
             // We now have variable length UTF8 encoded Unicode strings in values_read. These
             // must end up as fixed length Unicode strings in the Numpy array.
 
@@ -220,9 +224,8 @@ namespace lue::data_model {
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
-                assert(values_read[i][strlen(values_read[i])] == '\0');
                 max_nr_bytes_per_string_utf8 =
-                    std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
+                    std::max(max_nr_bytes_per_string_utf8, std::strlen(string_read(i)));
             }
 
             // Maximum number of code points per NumPy Unicode string. This happens when
@@ -242,7 +245,7 @@ namespace lue::data_model {
                 for (std::size_t i = 0; i < nr_strings; ++i)
                 {
                     // Decode UTF8 string as read from LUE array
-                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
+                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(string_read(i)));
 
                     if (!py_string)
                     {
-- 
2.43.0


From 4d83b634ee78c8535d5257748e63e769bf323861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 24/51] fix: cell_index used the extent of the wrong dimension
 of a partition

The indices of the cells in later partitions are offset by the number of cells
in earlier partitions along the dimension for which indices are requested. The
extent along the other dimension was used, which is only the same for square
partitions.
---
 .../include/lue/framework/algorithm/definition/cell_index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
index 2690cd7..1de9d0a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
@@ -72,7 +72,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<1>(partition_shape);
+                            count = std::get<0>(partition_shape);
                         }
                         else if (dimension_idx == 1)
                         {
@@ -96,7 +96,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<0>(partition_shape);
+                            count = std::get<1>(partition_shape);
                         }
 
                         IndexPartition partition{hpx::find_here(), offset, std::move(index_data)};
-- 
2.43.0


From d792c7cc24208a969793989bfebcf95150deb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 25/51] fix: abs marked the absolute value of the lowest
 floating point value as no-data

Only for integral elements the absolute value of the lowest value can't be
represented.
---
 .../include/lue/framework/algorithm/value_policies/abs.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
index 253423c..66a4713 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
@@ -14,7 +14,7 @@ namespace lue {
                 constexpr static auto within_range(
                     Element const& argument, [[maybe_unused]] Element const& result) -> bool
                 {
-                    if constexpr (std::is_signed_v<Element>)
+                    if constexpr (std::is_integral_v<Element> && std::is_signed_v<Element>)
                     {
                         // In 2's complement systems, the absolute value of the smallest integer
                         // value cannot be represented: abs(min_int) == max_int + 1
-- 
2.43.0


From 3888c7500678d2b954d0bffc4ac212544e35685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 26/51] fix: cast to an integer accepted floating point values
 that are just too large

The largest value of a 32- or 64-bit integer can be rounded up when it is
converted to a floating point value. That value itself, which can't be
represented by the integer, was cast instead of marked as no-data.
---
 .../lue/framework/algorithm/value_policies/cast.hpp      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
index 859ebbb..c9b9302 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
@@ -114,9 +114,16 @@ namespace lue {
                     if constexpr (std::is_floating_point_v<InputElement> && std::is_integral_v<OutputElement>)
                     {
                         // float -> int / unsigned int
+                        // The largest output value can become larger when it is converted to a
+                        // floating-point value. Its upper bound (a power of two) can't.
+                        constexpr InputElement upper_bound =
+                            InputElement{2} *
+                            static_cast<InputElement>(std::numeric_limits<OutputElement>::max() / 2 + 1);
+
                         return argument >= InputElement{std::numeric_limits<OutputElement>::min()} &&
                                argument <=
-                                   static_cast<InputElement>(std::numeric_limits<OutputElement>::max());
+                                   static_cast<InputElement>(std::numeric_limits<OutputElement>::max()) &&
+                               argument < upper_bound;
                     }
 
                     return true;
-- 
2.43.0


From eabe5bc8aa1816d404d95aab3c03c14ea4b12246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 27/51] fix: aspect was not the direction in which the surface
 dips

The angle did not depend continuously on the gradient: the arguments of the
arc tangent were swapped and only in eight directions the result was the
expected one. Besides that, the direction was the one in which the elevation
increases, instead of the one in which the surface dips.
---
 .../framework/algorithm/definition/aspect.hpp | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
index 95f5506..843a0c0 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
@@ -24,40 +24,20 @@ namespace lue {
                 OutputElement operator()(
                     InputElement const gradient_x, InputElement const gradient_y) const noexcept
                 {
+                    // The surface dips in the direction opposite to the one of the gradient. The y-axis
+                    // of the gradient points to the south.
                     OutputElement result{};
 
-                    if (gradient_x == 0)
+                    if (gradient_x != 0 || gradient_y != 0)
                     {
-                        if (gradient_y < 0)
-                        {
-                            // Dip to the north
-                            result = 0;
-                        }
-                        else if (gradient_y > 0)
-                        {
-                            // Dip to the south
-                            result = pi<OutputElement>;
-                        }
-                    }
-                    else if (gradient_y == 0)
-                    {
-                        if (gradient_x < 0)
-                        {
-                            // Dip to the west
-                            result = pi<OutputElement> + half_pi<OutputElement>;
-                        }
-                        else if (gradient_x > 0)
+                        // Angle in radians, clockwise from the north
+                        result = std::atan2(-gradient_x, gradient_y);
+
+                        if (result < 0)
                         {
-                            // Dip to the east
-                            result = half_pi<OutputElement>;
+                            result += two_pi<OutputElement>;
                         }
                     }
-                    else
-                    {
-                        result = std::atan(gradient_x / gradient_y) +
-                                 (gradient_x < 0 ? pi<OutputElement> + half_pi<OutputElement>
-                                                 : half_pi<OutputElement>);
-                    }
 
                     HPX_ASSERT(std::isnan(result) || (result >= 0 && result <= two_pi<OutputElement>));
 
-- 
2.43.0


From dc4e7f3a7f5610285c877f31015a627a36affac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 28/51] fix: d8_flow_direction did not let cells at the border
 of the array with a negative elevation drain

The smallest positive floating point value was used as the elevation outside of
the array, instead of the lowest value.
---
 .../framework/algorithm/value_policies/d8_flow_direction.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
index 2998c31..7a74507 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
@@ -34,7 +34,7 @@ namespace lue {
                         DomainPolicyT<PoliciesBase>{},
                         FlowDirectionOutputPolicies{},
                         ElevationInputPolicies{FillHaloWithConstantValue<ElevationElement>{
-                            std::numeric_limits<ElevationElement>::min()}}}
+                            std::numeric_limits<ElevationElement>::lowest()}}}
 
                 {
                 }
-- 
2.43.0


From 1c51913df234ce45f90d2be0f9684813e8e5262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 29/51] fix: constructing an Array from a range of values did
 not compile

---
 source/framework/core/include/lue/framework/core/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 7c704e4..c4e759f 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -119,7 +119,7 @@ namespace lue {
             {
                 lue_hpx_assert(std::distance(begin, end) == _nr_elements);
 
-                std::move(begin, end, begin());
+                std::move(begin, end, this->begin());
             }
 
 
-- 
2.43.0


From 08d6e82c3a2073a3c09541ff6bfb502d121b4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 30/51] fix: clump did not merge clumps that are only connected
 through a third one

---
 .../framework/algorithm/definition/clump.hpp  | 65 +++++++++++--------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index 35eb33e..16d5677 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1793,41 +1793,54 @@ namespace lue {
                                 // This loop is the most expensive part of the whole algorithm and it executes
                                 // on the root locality. Not nice. Improve if possible.
 
-                                for (std::size_t idx1 = 0; idx1 < std::size(global_clump_ids); ++idx1)
+                                // Merging two sets can result in a set that shares elements with a set that has
+                                // already been looked at. Continue until there is nothing left to merge.
+
+                                bool merged{};
+
+                                do
                                 {
-                                    for (std::size_t idx2 = idx1 + 1; idx2 < std::size(global_clump_ids);
-                                         ++idx2)
-                                    {
-                                        auto& global_clump_ids1{global_clump_ids[idx1]};
-                                        auto& global_clump_ids2{global_clump_ids[idx2]};
+                                    merged = false;
 
-                                        if (share_element(global_clump_ids1, global_clump_ids2))
+                                    for (std::size_t idx1 = 0; idx1 < std::size(global_clump_ids); ++idx1)
+                                    {
+                                        for (std::size_t idx2 = idx1 + 1; idx2 < std::size(global_clump_ids);
+                                             ++idx2)
                                         {
-                                            global_clump_ids_union.clear();
-
-                                            std::set_union(
-                                                global_clump_ids1.begin(),
-                                                global_clump_ids1.end(),
-                                                global_clump_ids2.begin(),
-                                                global_clump_ids2.end(),
-                                                std::inserter(
-                                                    global_clump_ids_union, global_clump_ids_union.begin()));
-
-                                            global_clump_ids1 = std::move(global_clump_ids_union);
-                                            global_clump_ids2.clear();
-                                            lue_hpx_assert(
-                                                global_clump_ids_updates.find(idx2) ==
-                                                global_clump_ids_updates.end());
-                                            global_clump_ids_updates[idx2] = idx1;
+                                            auto& global_clump_ids1{global_clump_ids[idx1]};
+                                            auto& global_clump_ids2{global_clump_ids[idx2]};
+
+                                            if (share_element(global_clump_ids1, global_clump_ids2))
+                                            {
+                                                global_clump_ids_union.clear();
+
+                                                std::set_union(
+                                                    global_clump_ids1.begin(),
+                                                    global_clump_ids1.end(),
+                                                    global_clump_ids2.begin(),
+                                                    global_clump_ids2.end(),
+                                                    std::inserter(
+                                                        global_clump_ids_union, global_clump_ids_union.begin()));
+
+                                                global_clump_ids1 = std::move(global_clump_ids_union);
+                                                global_clump_ids2.clear();
+                                                lue_hpx_assert(
+                                                    global_clump_ids_updates.find(idx2) ==
+                                                    global_clump_ids_updates.end());
+                                                global_clump_ids_updates[idx2] = idx1;
+                                                merged = true;
+                                            }
                                         }
                                     }
-                                }
+                                } while (merged);
 
                                 for (auto& [clump_tuple, global_clump_ids_idx] :
                                      global_clump_ids_by_local_clump_id)
                                 {
-                                    if (auto it = global_clump_ids_updates.find(global_clump_ids_idx);
-                                        it != global_clump_ids_updates.end())
+                                    // A set that has been merged with another one can itself be merged later
+                                    for (auto it = global_clump_ids_updates.find(global_clump_ids_idx);
+                                         it != global_clump_ids_updates.end();
+                                         it = global_clump_ids_updates.find(global_clump_ids_idx))
                                     {
                                         global_clump_ids_idx = it->second;
                                     }
-- 
2.43.0


From 311dd204cc352145554e696193fd60b92a3819eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 31/51] fix: an Array that has been reshaped to an empty one
 was considered to be invalid

---
 source/framework/core/include/lue/framework/core/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index c4e759f..b88423c 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -438,7 +438,7 @@ namespace lue {
                 lue_hpx_assert(static_cast<Count>(_span.size()) == _nr_elements);
                 lue_hpx_assert(_span.data_handle() == _elements.get());
                 lue_hpx_assert(
-                    (_nr_elements == 0 && data() == nullptr) || (_nr_elements > 0 && data() != nullptr));
+                    (_buffer_size == 0 && data() == nullptr) || (_buffer_size > 0 && data() != nullptr));
                 lue_hpx_assert(_nr_elements <= _buffer_size);
             }
 
-- 
2.43.0


From 4d13703eb4f08ddaaf58fd971daa7073fa92f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 32/51] fix: removing elements from a 1D Array left its shape
 as it was

---
 source/framework/core/include/lue/framework/core/array.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index b88423c..57deab1 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -284,6 +284,13 @@ namespace lue {
 
                 std::move(end, this->end(), begin);
                 _nr_elements -= std::distance(begin, end);
+
+                if constexpr (rank == 1)
+                {
+                    // Keep the shape in sync with the number of elements
+                    _shape[0] = _nr_elements;
+                    _span = Span{_elements.get(), _shape};
+                }
             }
 
 
-- 
2.43.0


From f3380f15c0a52b43795cc862b9518553f19b760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 33/51] fix: default_partition_shape could be larger than the
 array

---
 .../include/lue/framework/core/domain_decomposition.hpp    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
index ad3a7b5..9ca6cbb 100644
--- a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
+++ b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
@@ -349,22 +349,23 @@ namespace lue {
         Count dimension_size{};
         Shape<Index, rank> partition_shape{};
 
+        Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
+
         bool const not_enough_elements{array_size / nr_worker_threads < default_partition_size};
 
         if (not_enough_elements)
         {
             // Shrink the partition. Try to end up with enough partitions to use all cores. It is OK if that
             // is not possible.
-            Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
-
             dimension_size = std::max(Count{1}, min_array_dimension_extent / nr_worker_threads);
         }
         else
         {
             // Try the default partition size. This should result in enough partitions to distribute over all
-            // cores.
+            // cores. Partitions must fit in the array.
             dimension_size = std::max(
                 Count{1}, static_cast<Count>(std::floor(std::pow(default_partition_size, 1.0 / rank))));
+            dimension_size = std::min(dimension_size, min_array_dimension_extent);
         }
 
         partition_shape.fill(dimension_size);
-- 
2.43.0


From 0e473f18e55078d4b7c836b3461d37246ccf2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 34/51] fix: move-assigning to a SharedBuffer emptied the
 buffers it shared its elements with

---
 .../lue/framework/partitioned_array/shared_buffer.hpp    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
index 0362be1..dbcb298 100644
--- a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
+++ b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
@@ -97,12 +97,15 @@ namespace lue {
             {
                 // This class requires that a _ptr always points to a, possibly empty, collection of elements
 
-                std::swap(other._ptr, _ptr);
+                // The elements this instance was pointing to until now may be shared with other instances.
+                // These must not be cleared.
+                SharedBuffer buffer{std::move(other)};
+
+                std::swap(buffer._ptr, _ptr);
                 assert_invariants();
 
-                other._ptr->clear();
                 other.assert_invariants();
-                lue_hpx_assert(other.size() == 0);
+                lue_hpx_assert(this == &other || other.size() == 0);
 
                 return *this;
             }
-- 
2.43.0


From eb36c29292f4a22a6e2851e28b8e10ecb19cfb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 35/51] fix: array_like could not be instantiated

---
 .../algorithm/include/lue/framework/algorithm/array_like.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
index 43a4c77..ad4f37c 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
@@ -119,7 +119,7 @@ namespace lue {
                 action, localities[partition_idx], policies, input_partitions[partition_idx], fill_value);
         }
 
-        return OutputArray{shape(input_array), localities, std::move(output_partitions)};
+        return OutputArray{input_array, std::move(output_partitions)};
     }
 
 
-- 
2.43.0


From 820c6204970c6dc1c2186037b078a39672460f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 36/51] fix: range ignored that partitions in the last column
 can be larger than those in the first one

---
 .../algorithm/include/lue/framework/algorithm/range.hpp  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
index d030387..0279b3f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
@@ -99,8 +99,6 @@ namespace lue {
 
         std::vector<hpx::future<Shape>> partition_shapes(nr_partitions);
 
-        // TODO: We are only using the first column of partition shapes, but here we are asking for all of
-        // them
         for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
         {
             InputPartition& partition = partitions[partition_idx];
@@ -149,8 +147,8 @@ namespace lue {
 
                         for (Index idx0 = 0; idx0 < nr_partitions0; ++idx0)
                         {
-                            auto const [partition_nr_elements0, partition_nr_elements1] =
-                                partition_shapes_span[idx0, 0];
+                            Count const partition_nr_elements0 =
+                                std::get<0>(partition_shapes_span[idx0, 0]);
 
                             for (Index idx1 = 0; idx1 < nr_partitions1; ++idx1)
                             {
@@ -161,7 +159,8 @@ namespace lue {
                                 range_partitions_span[idx0, idx1] = hpx::async(
                                     action, localities(idx0, idx1), input_partition, start_value, stride);
 
-                                start_value += partition_nr_elements1;
+                                // Partitions in the last column can be larger than those in the first one
+                                start_value += std::get<1>(partition_shapes_span[idx0, idx1]);
                             }
 
                             start_value += (partition_nr_elements0 - 1) * stride;
-- 
2.43.0


From c2b65e28079846b7baa929ad63b1f77c9fd9890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 37/51] fix: downscale used the wrong cells of larger last
 partitions

---
 .../algorithm/definition/resample.hpp         | 32 +++++++------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
index 0e3e18c..c1d78b0 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
@@ -234,27 +234,17 @@ namespace lue {
                     // contributes to the values of multiple target cells. Determine the offset and shape of
                     // the source cells that must be assigned to the cells in the target partition.
 
-                    Offset source_area_offset{
-                        (std::get<0>(target_partition_offset) / _count) % std::get<0>(_partition_shape),
-                        (std::get<1>(target_partition_offset) / _count) % std::get<1>(_partition_shape)};
-
-                    // Careful: in case of the last row and column, partition shapes may differ. Only in those
-                    // cases, we need to test the special situation that we need to query outside of the
-                    // normal partition bounds. For example, if the partition shape is (3, 3), then a last
-                    // partition in a row may have shape (3, 5). Without doing the following test, we would
-                    // copy the wrong source values (starting at offset (0, 0), while instead we should be
-                    // copying those starting at (0, 3).
-                    if (std::get<0>(target_partition_shape) != std::get<0>(_partition_shape) &&
-                        std::get<0>(source_area_offset) == 0)
-                    {
-                        std::get<0>(source_area_offset) = std::get<0>(_partition_shape);
-                    }
-
-                    if (std::get<1>(target_partition_shape) != std::get<1>(_partition_shape) &&
-                        std::get<1>(source_area_offset) == 0)
-                    {
-                        std::get<1>(source_area_offset) = std::get<1>(_partition_shape);
-                    }
+                    // Careful: the partitions in the last row and column of the source array can be larger than
+                    // the other ones. More target partitions may be filled from these than from the other
+                    // ones.
+                    auto const [source_partition_idx0, source_partition_idx1] =
+                        linear_idx_to_idxs(source_partition_idx, _partitions.shape());
+
+                    Offset const source_area_offset{
+                        std::get<0>(target_partition_offset) / _count -
+                            source_partition_idx0 * std::get<0>(_partition_shape),
+                        std::get<1>(target_partition_offset) / _count -
+                            source_partition_idx1 * std::get<1>(_partition_shape)};
 
                     // To only thing the task needs to do is copy cells from the source area, starting at the
                     // offset, into the new partition, assigning source cell values to multiple target
-- 
2.43.0


From 0dad4a6ab3b865a234b2d72a92cbba6c1720118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 38/51] fix: clump assumed that partitions of local results are
 ready

---
 .../include/lue/framework/algorithm/definition/clump.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index 16d5677..202f3b2 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1938,7 +1938,8 @@ namespace lue {
                             auto partition{local_result.partition()};
                             auto lut{local_result.lut()};
 
-                            lue_hpx_assert(partition.is_ready());
+                            // The local results are ready, but the partitions in them may not be
+                            partition.wait();
 
                             clump_partition_promises[partition_idx].set_value(
                                 Partition{hpx::async(
-- 
2.43.0


From cece8a4ca1bf375be98c1bf7a71cfa92103bcbcd Mon Sep 17 00:00:00 2001
From: lue <lue@localhost>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 39/51] fix: routing operations could not handle partitions of
 a single row or column

---
 .../definition/accumulating_router.hpp        | 151 --------
 .../algorithm/definition/inflow_count.hpp     | 331 ++++--------------
 .../algorithm/detail/inflow_count.hpp         | 321 ++---------------
 3 files changed, 109 insertions(+), 694 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
index ecad279..8ce7678 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
@@ -143,157 +143,6 @@ namespace lue {
         };
 
 
-        inline auto destination_cell(
-            Count const extent0,
-            Count const extent1,
-            Index const idx0,
-            Index const idx1,
-            Index const offset0,
-            Index const offset1) -> std::tuple<accu::Direction, Index>
-        {
-            lue_hpx_assert((idx0 == 0 || idx0 == extent0 - 1) || (idx1 == 0 || idx1 == extent1 - 1));
-            lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
-            lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
-
-            // Which neighbouring partition to send a message to
-            accu::Direction direction{};
-
-            // Idx of cell in the neighbouring partition
-            Index idx{-1};
-
-            if (idx0 == 0)
-            {
-                // north border
-                if (idx1 == 0)
-                {
-                    // north-west source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::north_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // north-east source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::north_east;
-                        idx = 0;  // Whatever
-                    }
-                }
-                else
-                {
-                    // north source cell → determine destination
-                    lue_hpx_assert(offset0 == -1);
-                    direction = accu::Direction::north;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx0 == extent0 - 1)
-            {
-                // south border
-                if (idx1 == 0)
-                {
-                    // south-west source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::south_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // south-east source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::south_east;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else
-                {
-                    // south source cell → determine destination
-                    lue_hpx_assert(offset0 == 1);
-                    direction = accu::Direction::south;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx1 == 0)
-            {
-                // west source cell → determine destination
-                lue_hpx_assert(offset1 == -1);
-                direction = accu::Direction::west;
-                idx = idx0 + offset0;
-            }
-            else if (idx1 == extent1 - 1)
-            {
-                // east source cell → determine destination
-                lue_hpx_assert(offset1 == 1);
-                direction = accu::Direction::east;
-                idx = idx0 + offset0;
-            }
-
-            return std::make_tuple(direction, idx);
-        }
-
-
         template<
             typename MaterialElement,
             Rank rank>  // Remove parameter
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
index 2dd9b51..b56fe08 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
@@ -94,6 +94,69 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Given a cell whose downstream cell is located in a neighbouring partition, return the
+                        direction of that partition and the index of the cell along the border of it
+        */
+        inline auto destination_cell(
+            Count const extent0,
+            Count const extent1,
+            Index const idx0,
+            Index const idx1,
+            Index const offset0,
+            Index const offset1) -> std::tuple<accu::Direction, Index>
+        {
+            lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
+            lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
+
+            // Cell in terms of the current partition. It is located outside of it. Note that a partition can
+            // contain a single row or column.
+            Index const to_idx0{idx0 + offset0};
+            Index const to_idx1{idx1 + offset1};
+
+            bool const to_north{to_idx0 < 0};
+            bool const to_south{to_idx0 >= extent0};
+            bool const to_west{to_idx1 < 0};
+            bool const to_east{to_idx1 >= extent1};
+
+            lue_hpx_assert(to_north || to_south || to_west || to_east);
+
+            // Which neighbouring partition to send a message to
+            accu::Direction direction{};
+
+            // Idx of cell in the neighbouring partition. Not used in case of a corner.
+            Index idx{-1};
+
+            if (to_north)
+            {
+                direction = to_west   ? accu::Direction::north_west
+                            : to_east ? accu::Direction::north_east
+                                      : accu::Direction::north;
+            }
+            else if (to_south)
+            {
+                direction = to_west   ? accu::Direction::south_west
+                            : to_east ? accu::Direction::south_east
+                                      : accu::Direction::south;
+            }
+            else
+            {
+                direction = to_west ? accu::Direction::west : accu::Direction::east;
+            }
+
+            if (!to_west && !to_east)
+            {
+                idx = to_idx1;
+            }
+            else if (!to_north && !to_south)
+            {
+                idx = to_idx0;
+            }
+
+            return std::make_tuple(direction, idx);
+        }
+
+
         template<typename Policies, typename FlowDirectionElement, Rank rank>
         hpx::tuple<
             hpx::future<std::array<std::vector<std::array<Index, rank>>, nr_neighbours<rank>()>>,
@@ -137,270 +200,28 @@ namespace lue {
 
             {
                 auto const& indp{std::get<0>(policies.inputs_policies()).input_no_data_policy()};
-                Index idx0, idx1;
-                FlowDirectionElement flow_direction;
 
-                if (extent1 > 2)
-                {
-                    // North side, excluding north-west and north-east corners
-                    idx0 = 0;
-
-                    for (idx1 = 1; idx1 < extent1 - 1; ++idx1)
+                visit_border_cells(
+                    extent0,
+                    extent1,
+                    [&](Index const idx0, Index const idx1)
                     {
                         if (!indp.is_no_data(flow_direction_data, idx0, idx1))
                         {
-                            flow_direction = flow_direction_data(idx0, idx1);
+                            Index offset0{};
+                            Index offset1{};
 
-                            if (flow_direction == north_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1 - 1);
-                            }
-                            else if (flow_direction == north<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1);
-                            }
-                            else if (flow_direction == north_east<FlowDirectionElement>)
+                            if (!downstream_cell(
+                                    flow_direction_data, extent0, extent1, idx0, idx1, offset0, offset1))
                             {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1 + 1);
-                            }
-                        }
-                    }
-
-                    // South side, excluding south-west and south-east corners
-                    idx0 = extent0 - 1;
-
-                    for (idx1 = 1; idx1 < extent1 - 1; ++idx1)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
+                                auto const [direction, idx] =
+                                    destination_cell(extent0, extent1, idx0, idx1, offset0, offset1);
 
-                            if (flow_direction == south_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1 - 1);
-                            }
-                            else if (flow_direction == south<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1);
-                            }
-                            else if (flow_direction == south_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1 + 1);
-                            }
-                        }
-                    }
-                }
-
-                if (extent0 > 2)
-                {
-                    // West side, excluding north-west and south-west corners
-                    idx1 = 0;
-
-                    for (idx0 = 1; idx0 < extent0 - 1; ++idx0)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == north_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0 - 1);
-                            }
-                            else if (flow_direction == west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0);
-                            }
-                            else if (flow_direction == south_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0 + 1);
-                            }
-                        }
-                    }
-
-                    // East side, excluding north-east and south-east corners
-                    idx1 = extent1 - 1;
-
-                    for (idx0 = 1; idx0 < extent0 - 1; ++idx0)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == north_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0 - 1);
-                            }
-                            else if (flow_direction == east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0);
-                            }
-                            else if (flow_direction == south_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0 + 1);
+                                output_cells_idxs[direction].push_back({idx0, idx1});
+                                input_cell_idxs[direction].push_back(idx);
                             }
                         }
-                    }
-                }
-
-                // North-west corner
-                {
-                    idx0 = 0;
-                    idx1 = 0;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0 + 1);
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0);
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north_west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north_west].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1);
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1 + 1);
-                        }
-                    }
-                }
-
-                // North-east corner
-                {
-                    idx0 = 0;
-                    idx1 = extent1 - 1;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1 - 1);
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1);
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north_east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north_east].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0 + 1);
-                        }
-                    }
-                }
-
-                // South-east corner
-                {
-                    idx0 = extent0 - 1;
-                    idx1 = extent1 - 1;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0 - 1);
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south_east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south_east].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1);
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1 - 1);
-                        }
-                    }
-                }
-
-                // South-west corner
-                {
-                    idx0 = extent0 - 1;
-                    idx1 = 0;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0 - 1);
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0);
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south_west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south_west].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1 + 1);
-                        }
-                    }
-                }
+                    });
 
                 for (accu::Direction const direction : accu::directions)
                 {
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
index 5941b1b..411557e 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
@@ -6,6 +6,27 @@
 
 namespace lue::detail {
 
+    /*!
+        @brief      Call @a visit for each cell at the border of a partition, once
+    */
+    template<typename Visit>
+    void visit_border_cells(Count const nr_elements0, Count const nr_elements1, Visit const& visit)
+    {
+        for (Index idx0 = 0; idx0 < nr_elements0; ++idx0)
+        {
+            bool const is_border_row{idx0 == 0 || idx0 == nr_elements0 - 1};
+
+            // Either visit all cells in the row, or only the first and the last one
+            Index const step{is_border_row || nr_elements1 == 1 ? 1 : nr_elements1 - 1};
+
+            for (Index idx1 = 0; idx1 < nr_elements1; idx1 += step)
+            {
+                visit(idx0, idx1);
+            }
+        }
+    }
+
+
     template<typename CountElement, typename Policies, typename FlowDirectionElement, Rank rank>
     auto inflow_count_partition_data(
         Policies const& policies, ArrayPartitionData<FlowDirectionElement, rank> const& flow_direction_data)
@@ -46,307 +67,31 @@ namespace lue::detail {
             }
         }
 
-        // North-west cell
-        {
-            Index const idx0{0};
-            Index const idx1{0};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                    inflow_count_data(idx0, idx1 + 1) += 1;
-                }
-                else if (flow_direction == south_east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                    inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                }
-                else if (flow_direction == south<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                    inflow_count_data(idx0 + 1, idx1) += 1;
-                }
-            }
-        }
-
-        // North-east cell
-        {
-            Index const idx0{0};
-            Index const idx1{nr_elements1 - 1};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                    inflow_count_data(idx0, idx1 - 1) += 1;
-                }
-                else if (flow_direction == south_west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                    inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                }
-                else if (flow_direction == south<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                    inflow_count_data(idx0 + 1, idx1) += 1;
-                }
-            }
-        }
-
-        // South-west cell
+        // Cells at the border of the partition. Note that a cell can be located at more than two sides of the
+        // partition, in case the partition contains a single row or column.
+        auto const handle_border_cell = [&](Index const idx0, Index const idx1)
         {
-            Index const idx0{nr_elements0 - 1};
-            Index const idx1{0};
-
             if (indp.is_no_data(flow_direction_data, idx0, idx1))
             {
                 ondp.mark_no_data(inflow_count_data, idx0, idx1);
             }
             else
             {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == north<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                    inflow_count_data(idx0 - 1, idx1) += 1;
-                }
-                else if (flow_direction == north_east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                    inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                }
-                else if (flow_direction == east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                    inflow_count_data(idx0, idx1 + 1) += 1;
-                }
-            }
-        }
-
-        // South-east cell
-        {
-            Index const idx0{nr_elements0 - 1};
-            Index const idx1{nr_elements1 - 1};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                    inflow_count_data(idx0, idx1 - 1) += 1;
-                }
-                else if (flow_direction == north_west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                    inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                }
-                else if (flow_direction == north<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                    inflow_count_data(idx0 - 1, idx1) += 1;
-                }
-            }
-        }
-
-        if (nr_elements1 > 2)
-        {
-            // North cells
-            {
-                Index const idx0 = 0;
-
-                for (Index idx1 = 1; idx1 < nr_elements1 - 1; ++idx1)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                            inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                            inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                    }
-                }
-            }
-
-            // South cells
-            {
-                Index const idx0 = nr_elements0 - 1;
-
-                for (Index idx1 = 1; idx1 < nr_elements1 - 1; ++idx1)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                            inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                            inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                    }
-                }
-            }
-        }
+                Index offset0{};
+                Index offset1{};
 
-        if (nr_elements0 > 2)
-        {
-            // West cells
-            {
-                Index const idx1 = 0;
+                bool const is_within_partition = downstream_cell(
+                    flow_direction_data, nr_elements0, nr_elements1, idx0, idx1, offset0, offset1);
 
-                for (Index idx0 = 1; idx0 < nr_elements0 - 1; ++idx0)
+                if (is_within_partition && (offset0 != 0 || offset1 != 0))
                 {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                            inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                            inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
-                    }
+                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + offset0, idx1 + offset1)));
+                    inflow_count_data(idx0 + offset0, idx1 + offset1) += 1;
                 }
             }
+        };
 
-            // East cells
-            {
-                Index const idx1 = nr_elements1 - 1;
-
-                for (Index idx0 = 1; idx0 < nr_elements0 - 1; ++idx0)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                            inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                            inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
-                    }
-                }
-            }
-        }
+        visit_border_cells(nr_elements0, nr_elements1, handle_border_cell);
 
         return inflow_count_data;
     }
-- 
2.43.0


From c5947a962fc07f8104e9d27f876a2ac4014b56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 40/51] fix: decreasing_order left out non-positive
 floating-point values

---
 .../algorithm/definition/decreasing_order.hpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 748e9e6..4df29c4 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -361,10 +361,11 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        bool const has_remote_value{downstream_maxima.size() > 1};
+                        Value remote_value{};
                         hpx::id_type downstream_component_id{};
 
-                        if (downstream_maxima.size() > 1)
+                        if (has_remote_value)
                         {
                             std::tie(remote_value, downstream_component_id) = downstream_maxima[1];
 
@@ -394,7 +395,7 @@ namespace lue {
                             {
                                 auto [local_value, local_idx] = local_values[local_value_idx];
 
-                                if (local_value >= remote_value)
+                                if (!has_remote_value || local_value >= remote_value)
                                 {
                                     cell_idxs.push_back(local_idx);
                                 }
@@ -865,10 +866,11 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        bool const has_remote_value{downstream_maxima.size() > 1};
+                        Value remote_value{};
                         hpx::id_type downstream_component_id{};
 
-                        if (downstream_maxima.size() > 1)
+                        if (has_remote_value)
                         {
                             std::tie(remote_value, downstream_component_id) = downstream_maxima[1];
 
@@ -898,7 +900,7 @@ namespace lue {
                             {
                                 auto [local_value, local_idx] = local_values[local_value_idx];
 
-                                if (local_value >= remote_value)
+                                if (!has_remote_value || local_value >= remote_value)
                                 {
                                     cell_idxs.push_back(local_idx);
                                 }
-- 
2.43.0


From caeb7a84eef4b69adcb9e6d61c17867b5c310c37 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 41/51] fix: decreasing_order without valid values was
 undefined behaviour

---
 .../framework/algorithm/definition/decreasing_order.hpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 4df29c4..73087b2 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -1600,6 +1600,13 @@ namespace lue {
                                 }
                             }
 
+                            if (downstream_maxima.empty())
+                            {
+                                // No valid values, no route
+                                return hpx::make_ready_future(
+                                    std::make_tuple(RouteStarts{}, std::move(components)));
+                            }
+
                             // Sort all maximum values, in decreasing order
                             std::sort(
                                 downstream_maxima.begin(),
-- 
2.43.0


From 19ed027aa8a12d22ae102839324927e9f52594f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 42/51] fix: decreasing_order depended on the order in which
 tasks are executed

---
 .../algorithm/definition/decreasing_order.hpp      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 73087b2..e8af01e 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -105,12 +105,15 @@ namespace lue {
 
                         _route_partition{hpx::find_here(), offset, shape},
                         _route_partition_p{},
+                        _route_partition_f{_route_partition_p.get_future()},
                         _record_route_fragment_mutex{},
                         _route_fragments{},
                         _route_fragment_ends{},
                         _route_fragment_ends_idxs{}
 
                     {
+                        // Fragments are written to this partition, and refer to it
+                        _route_partition.wait();
                     }
 
 
@@ -124,7 +127,7 @@ namespace lue {
                     */
                     auto route_partition() -> RoutePartition
                     {
-                        return RoutePartition{_route_partition_p.get_future()};
+                        return RoutePartition{std::move(_route_partition_f)};
                     }
 
 
@@ -194,6 +197,9 @@ namespace lue {
                     //! Promise for the ID of the route partition server component
                     hpx::promise<hpx::id_type> _route_partition_p;
 
+                    //! Future of _route_partition_p. The promise may be moved from before the future is asked for.
+                    hpx::future<hpx::id_type> _route_partition_f;
+
                     hpx::shared_mutex _record_route_fragment_mutex;
 
                     RouteFragments _route_fragments;
@@ -1015,8 +1021,10 @@ namespace lue {
 
                     void skip_recording_route_fragments([[maybe_unused]] RouteID const route_id)
                     {
-                        // This function is never accessed by multiple threads at the same
-                        // time. There is only a single route.
+                        // There is only a single route, but the thread that recorded the previous
+                        // fragment in this partition may still be busy
+
+                        std::unique_lock write_lock{_data._record_route_fragment_mutex};
                         lue_hpx_assert(!_local_values.empty());
                         _local_values.clear();
                         _data.finish_partition();
-- 
2.43.0


From ad3d226b8c4c61fe6921c86388d2ce032a232dca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 43/51] fix: first_n depended on the order in which tasks are
 executed

---
 .../algorithm/definition/first_n.hpp          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
index 3b3f142..4be099b 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
@@ -55,6 +55,7 @@ namespace lue {
                         ComponentServerBase{},
                         _policies{policies},
                         _output_partition_promise{},
+                        _output_partition_future{_output_partition_promise.get_future()},
                         _output_partition{},
                         _route_partition{std::move(route_partition)},
                         _walk_mutex{},
@@ -77,6 +78,7 @@ namespace lue {
                             route_partition_ptr->offset(),
                             route_partition_ptr->shape(),
                             no_data_value)};
+                        _output_partition.wait();
 
                         std::set<RouteID> const route_ids{route_partition_ptr->route_ids()};
 
@@ -89,14 +91,6 @@ namespace lue {
                             // the walk has finished.
                             _fragment_idxs[route_id] = 0;
                         }
-                    }
-
-
-                    OutputPartition result_partition()
-                    {
-                        // Connect the promise with the future
-                        // This function must be called exactly once
-                        OutputPartition partition{_output_partition_promise.get_future()};
 
                         // If the route partition contains no fragments, the output partition
                         // can be marked as finished immediately
@@ -104,8 +98,13 @@ namespace lue {
                         {
                             finish_partition();
                         }
+                    }
+
 
-                        return partition;
+                    OutputPartition result_partition()
+                    {
+                        // This function must be called exactly once. Walks may be finished already.
+                        return OutputPartition{std::move(_output_partition_future)};
                     }
 
 
@@ -323,6 +322,8 @@ namespace lue {
 
                     mutable hpx::promise<hpx::id_type> _output_partition_promise;
 
+                    hpx::future<hpx::id_type> _output_partition_future;
+
                     OutputPartition _output_partition;
 
                     RoutePartition _route_partition;
-- 
2.43.0


From 5b9833ab17f36deab2406a7c8030fa8f399e1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 44/51] fix: simulate lets one time step too many be in flight
 before the first one has finished

The semaphore started with a lower limit of the first time step, as if that
one had finished already.
---
 .../framework/model/include/lue/framework/model/simulate.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index 1d6db88..8fe7728 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -76,7 +76,9 @@ namespace lue {
         rate_limit -= 1;  // Otherwise we get rate_limit + 1 time steps in flight
 
         std::int64_t const max_difference{rate_limit};
-        hpx::sliding_semaphore semaphore{max_difference, first_time_step};
+
+        // No time step has finished yet, so the lower limit is the time step before the first one
+        hpx::sliding_semaphore semaphore{max_difference, first_time_step - 1};
 
         // A type to represent the simulation's "state" after a single time step. It is assumed that once this
         // state becomes ready, that the tasks for the corresponding time step have all finished.
-- 
2.43.0


From 1e7bb66f08c3c1c6e0830daff5e021e4bce93894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 45/51] fix: don't open a dataset for its array's shape while
 it is still being written

---
 .../io/include/lue/framework/io/from_lue.hpp  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index b108477..3f5b124 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -818,6 +818,26 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Wait until the dataset can be opened for reading by the root locality
+        */
+        inline void wait_for_dataset_closed([[maybe_unused]] std::string const& dataset_pathname)
+        {
+#ifndef LUE_FRAMEWORK_WITH_PARALLEL_IO
+            auto const dataset_path{detail::normalize(dataset_pathname)};
+
+            // Don't read while a write is still ongoing
+            detail::to_lue_finished(dataset_path, detail::current_to_lue_order(dataset_path)).wait();
+
+            if constexpr (detail::serial_io_non_thread_safe)
+            {
+                // Don't read while another read is still ongoing
+                detail::from_lue_finished(dataset_path, detail::current_from_lue_order(dataset_path)).wait();
+            }
+#endif
+        }
+
+
         template<typename Shape>
         auto constant_array_shape(std::string const& array_pathname) -> Shape
         {
@@ -830,6 +850,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::constant::RasterView<DatasetPtr>;
 
+            wait_for_dataset_closed(dataset_pathname);
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
@@ -860,6 +882,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::variable::RasterView<DatasetPtr>;
 
+            wait_for_dataset_closed(dataset_pathname);
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
-- 
2.43.0


From 5e26a6872a4950dcf0da26848f96bd3770c05575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 46/51] fix: don't open a dataset for writing while an earlier
 read is not finished yet

---
 source/framework/io/source/lue.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/framework/io/source/lue.cpp b/source/framework/io/source/lue.cpp
index abfafdf..43b0d89 100644
--- a/source/framework/io/source/lue.cpp
+++ b/source/framework/io/source/lue.cpp
@@ -223,12 +223,19 @@ namespace lue::detail {
     /*!
         @brief      Add a @ future which becomes ready once call @a count to from_lue from @a path finishes
 
+        Calls for lower counts must have been added already
+
         This function must be called from the root locality, on the main thread.
     */
     void add_from_lue_finished(
         std::filesystem::path const& path, Count const count, hpx::shared_future<void> future)
     {
-        add_call_finished(from_lue_finished(), path, count, std::move(future));
+        // Reads are not necessarily serialized. Call count is only finished once all previous ones are too.
+        add_call_finished(
+            from_lue_finished(),
+            path,
+            count,
+            hpx::when_all(from_lue_finished(path, count - 1), std::move(future)).share());
     }
 
 
@@ -244,7 +251,8 @@ namespace lue::detail {
 
 
     /*!
-        @brief      Return a future which becomes ready once call @a count to from_lue from @a path finishes
+        @brief      Return a future which becomes ready once call @a count to from_lue from @a path, and all
+                    previous ones, finish
 
         This function must be called from the root locality, on the main thread.
     */
-- 
2.43.0


From b5faa83962743483295f6c3555b5e3184a95891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 47/51] fix: concurrent reads can be closed in any order

---
 source/framework/io/include/lue/framework/io/from_lue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 3f5b124..f3ce258 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -414,8 +414,11 @@ namespace lue {
 
                     if constexpr (serial_io)
                     {
-                        // No reason to go async. Any predecessor is done already.
-                        lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
+                        // No reason to go async. Reads that are not serialized can be closed in any order.
+                        if constexpr (serial_io_non_thread_safe)
+                        {
+                            lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
+                        }
 
                         // The dataset must go out of scope before we set the promise's value
                         [](auto&& dataset) -> auto
-- 
2.43.0


From 416fd13f8865a9af165b06c61f5192776e9073dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 48/51] fix: close dataset before signalling that it is closed

---
 .../io/include/lue/framework/io/from_lue.hpp  | 55 ++++++++--------
 .../io/include/lue/framework/io/to_lue.hpp    | 63 ++++++++++---------
 2 files changed, 62 insertions(+), 56 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index f3ce258..3e58002 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -201,35 +201,38 @@ namespace lue {
                     // Done with the collective call
                     from_lue_open_dataset_p.set_value();
 
-                    // Open phenomenon
-                    auto const& phenomenon{dataset.phenomena()[phenomenon_name]};
+                    {
+                        // Open phenomenon
+                        auto const& phenomenon{dataset.phenomena()[phenomenon_name]};
 
-                    // Open property-set
-                    auto const& property_set{phenomenon.property_sets()[property_set_name]};
+                        // Open property-set
+                        auto const& property_set{phenomenon.property_sets()[property_set_name]};
 
-                    // Open property
-                    lue_hpx_assert(property_set.properties().contains(property_name));
-                    lue_hpx_assert(
-                        property_set.properties().shape_per_object(property_name) ==
-                        data_model::ShapePerObject::different);
-                    lue_hpx_assert(
-                        property_set.properties().value_variability(property_name) ==
-                        data_model::ValueVariability::constant);
-                    using Properties = data_model::different_shape::Properties;
-                    auto const& property{property_set.properties().collection<Properties>()[property_name]};
+                        // Open property
+                        lue_hpx_assert(property_set.properties().contains(property_name));
+                        lue_hpx_assert(
+                            property_set.properties().shape_per_object(property_name) ==
+                            data_model::ShapePerObject::different);
+                        lue_hpx_assert(
+                            property_set.properties().value_variability(property_name) ==
+                            data_model::ValueVariability::constant);
+                        using Properties = data_model::different_shape::Properties;
+                        auto const& property{
+                            property_set.properties().collection<Properties>()[property_name]};
 
-                    // constant: data_model::different_shape::Value
-                    auto const& value{property.value()};
+                        // constant: data_model::different_shape::Value
+                        auto const& value{property.value()};
 
-                    // constant: data_model::Array: hdf5::Dataset
-                    auto array{value[object_id]};
+                        // constant: data_model::Array: hdf5::Dataset
+                        auto array{value[object_id]};
 
-                    auto create_hyperslab =
-                        [array_hyperslab_start](PartitionServer const& partition_server) -> auto
-                    { return hyperslab(array_hyperslab_start, partition_server); };
+                        auto create_hyperslab =
+                            [array_hyperslab_start](PartitionServer const& partition_server) -> auto
+                        { return hyperslab(array_hyperslab_start, partition_server); };
 
-                    // Synchronous
-                    read_partitions(policies, array, create_hyperslab, partitions);
+                        // Synchronous
+                        read_partitions(policies, array, create_hyperslab, partitions);
+                    }
 
                     // Closing a dataset is a collective operation: only close the dataset (let it go out
                     // of scope) when it is our turn to do so.
@@ -247,7 +250,7 @@ namespace lue {
                             -> Partitions
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             from_lue_close_dataset_p.set_value();
                             return partitions;
                         });
@@ -421,7 +424,7 @@ namespace lue {
                         }
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -449,7 +452,7 @@ namespace lue {
                                     -> auto
                                 {
                                     // The dataset must go out of scope before we set the promise's value
-                                    [](auto&& dataset) -> auto
+                                    [](auto dataset) -> auto
                                     {
                                         HPX_UNUSED(dataset);
                                         // dataset.flush();
diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index 5ce5ab6..680487c 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -265,40 +265,43 @@ namespace lue {
                     // Open the dataset once the first partition is ready to be written
                     auto dataset = open_dataset(dataset_path.string(), H5F_ACC_RDWR);
 
-                    // Open phenomenon
-                    auto& phenomenon{dataset.phenomena()[phenomenon_name]};
+                    {
+                        // Open phenomenon
+                        auto& phenomenon{dataset.phenomena()[phenomenon_name]};
 
-                    // Open property-set
-                    auto& property_set{phenomenon.property_sets()[property_set_name]};
+                        // Open property-set
+                        auto& property_set{phenomenon.property_sets()[property_set_name]};
 
-                    // Open property
-                    lue_hpx_assert(property_set.properties().contains(property_name));
-                    lue_hpx_assert(
-                        property_set.properties().shape_per_object(property_name) ==
-                        data_model::ShapePerObject::different);
-                    lue_hpx_assert(
-                        property_set.properties().value_variability(property_name) ==
-                        data_model::ValueVariability::constant);
-                    using Properties = data_model::different_shape::Properties;
-                    // data_model::different_shape::Property
-                    auto& property{property_set.properties().collection<Properties>()[property_name]};
+                        // Open property
+                        lue_hpx_assert(property_set.properties().contains(property_name));
+                        lue_hpx_assert(
+                            property_set.properties().shape_per_object(property_name) ==
+                            data_model::ShapePerObject::different);
+                        lue_hpx_assert(
+                            property_set.properties().value_variability(property_name) ==
+                            data_model::ValueVariability::constant);
+                        using Properties = data_model::different_shape::Properties;
+                        // data_model::different_shape::Property
+                        auto& property{
+                            property_set.properties().collection<Properties>()[property_name]};
 
-                    // constant: data_model::different_shape::Value
-                    auto const& value{property.value()};
+                        // constant: data_model::different_shape::Value
+                        auto const& value{property.value()};
 
-                    // constant: data_model::Array: hdf5::Dataset
-                    auto array{value[object_id]};
+                        // constant: data_model::Array: hdf5::Dataset
+                        auto array{value[object_id]};
 
-                    // Done with the collective calls. Note that H5DOpen is collective in case of write.
-                    // Writing partitions can happen independently now.
-                    to_lue_open_dataset_p.set_value();
+                        // Done with the collective calls. Note that H5DOpen is collective in case of write.
+                        // Writing partitions can happen independently now.
+                        to_lue_open_dataset_p.set_value();
 
-                    auto create_hyperslab =
-                        [array_hyperslab_start](PartitionServer const& partition_server) -> auto
-                    { return hyperslab(array_hyperslab_start, partition_server); };
+                        auto create_hyperslab =
+                            [array_hyperslab_start](PartitionServer const& partition_server) -> auto
+                        { return hyperslab(array_hyperslab_start, partition_server); };
 
-                    // Synchronous
-                    write_partitions(policies, partitions, create_hyperslab, array);
+                        // Synchronous
+                        write_partitions(policies, partitions, create_hyperslab, array);
+                    }
 
                     // Closing a dataset is a collective operation: only close the dataset (let it go out
                     // of scope) when it is our turn to do so.
@@ -315,7 +318,7 @@ namespace lue {
                             [[maybe_unused]] auto const& close_for_read_file_predecessor_f) mutable -> auto
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             to_lue_close_dataset_p.set_value();
                         });
                 },
@@ -518,7 +521,7 @@ namespace lue {
                         lue_hpx_assert(to_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -545,7 +548,7 @@ namespace lue {
                                 -> auto
                             {
                                 // The dataset must go out of scope before we set the promise's value
-                                [](auto&& dataset) -> auto
+                                [](auto dataset) -> auto
                                 {
                                     HPX_UNUSED(dataset);
                                     // dataset.flush();
-- 
2.43.0


From b74a7dca117750a89f9adfb39e7726df3905a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:18 +0000
Subject: [PATCH 49/51] fix: report the failure of writing an array to a
 dataset

---
 .../io/include/lue/framework/io/to_lue.hpp    | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index 680487c..b1d0347 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -679,7 +679,7 @@ namespace lue {
                      array_pathname,
                      to_lue_order,
                      from_lue_order,
-                     object_id]([[maybe_unused]] auto const& previous_locality_finished) -> auto
+                     object_id](auto&& previous_locality_finished) -> auto
                     {
                         return hpx::async(
                             action,
@@ -690,7 +690,15 @@ namespace lue {
                             std::move(array_pathname),
                             to_lue_order,
                             from_lue_order,
-                            object_id);
+                            object_id)
+                            .then(
+                                // Report all failures, not only the ones by this process
+                                [previous_locality_finished = std::move(previous_locality_finished)](
+                                    auto&& finished) mutable -> void
+                                {
+                                    finished.get();
+                                    previous_locality_finished.get();
+                                });
                     }));
             }
             else
@@ -716,9 +724,8 @@ namespace lue {
             lue_hpx_assert(to_lue_finished.valid());
             detail::add_to_lue_finished(dataset_path, to_lue_order, to_lue_finished);
 
-            // Convert shared_future to future
-            // return to_lue_finished.then([]([[maybe_unused]] auto const& future) -> auto {});
-            return hpx::when_all(to_lue_finished);
+            // Convert shared_future to future. Don't use when_all here. It drops exceptions.
+            return to_lue_finished.then([](auto const& future) -> void { future.get(); });
         }
         else
         {
@@ -827,7 +834,7 @@ namespace lue {
                      to_lue_order,
                      from_lue_order,
                      object_id,
-                     time_step_idx]([[maybe_unused]] auto const& locality_finished) -> auto
+                     time_step_idx](auto&& locality_finished) -> auto
                     {
                         return hpx::async(
                             action,
@@ -839,7 +846,15 @@ namespace lue {
                             to_lue_order,
                             from_lue_order,
                             object_id,
-                            time_step_idx);
+                            time_step_idx)
+                            .then(
+                                // Report all failures, not only the ones by this process
+                                [locality_finished = std::move(locality_finished)](
+                                    auto&& finished) mutable -> void
+                                {
+                                    finished.get();
+                                    locality_finished.get();
+                                });
                     }));
             }
 
@@ -867,7 +882,8 @@ namespace lue {
             lue_hpx_assert(to_lue_finished.valid());
             detail::add_to_lue_finished(dataset_path, to_lue_order, to_lue_finished);
 
-            return hpx::when_all(to_lue_finished);
+            // Don't use when_all here. It drops exceptions.
+            return to_lue_finished.then([](auto const& future) -> void { future.get(); });
         }
 
         if constexpr (detail::parallel_io)
-- 
2.43.0


From 5eb264c817d7ee33b866d63d85eaa680582371d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 50/51] fix: from_gdal: don't use NaN as the no-data value to
 compare with when default constructing a policy

---
 source/framework/io/source/gdal.cpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/io/source/gdal.cpp.in b/source/framework/io/source/gdal.cpp.in
index aeda253..f5e7221 100644
--- a/source/framework/io/source/gdal.cpp.in
+++ b/source/framework/io/source/gdal.cpp.in
@@ -53,7 +53,7 @@ namespace lue {
 
                 SpecialValuePolicy():
 
-                    SpecialValuePolicy{policy::no_data_value<Element>}
+                    SpecialValuePolicy{policy::DetectNoDataByValue<Element>::no_data_value}
 
                 {
                 }
-- 
2.43.0


From fae351d5b6ab3430827957265f838578b2ae0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:00:02 +0000
Subject: [PATCH 51/51] fix: let writing a field to a raster using GDAL call
 the function that does

---
 source/framework/api/cxx/source/io.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/framework/api/cxx/source/io.cpp b/source/framework/api/cxx/source/io.cpp
index 0dee040..44ab04a 100644
--- a/source/framework/api/cxx/source/io.cpp
+++ b/source/framework/api/cxx/source/io.cpp
@@ -12,21 +12,21 @@
 
 namespace lue {
 
-    auto write(
+    auto to_gdal(
         [[maybe_unused]] auto const& field,
         [[maybe_unused]] std::string const& name,
         [[maybe_unused]] std::string const& clone_name) -> hpx::future<void>
     {
-        api::detail::unsupported_overload("write", field, name, clone_name);
+        api::detail::unsupported_overload("to_gdal", field, name, clone_name);
 
         return hpx::make_ready_future();
     }
 
 
-    auto write([[maybe_unused]] auto const& field, [[maybe_unused]] std::string const& name)
+    auto to_gdal([[maybe_unused]] auto const& field, [[maybe_unused]] std::string const& name)
         -> hpx::future<void>
     {
-        api::detail::unsupported_overload("write", field, name);
+        api::detail::unsupported_overload("to_gdal", field, name);
 
         return hpx::make_ready_future();
     }
@@ -150,7 +150,7 @@ namespace lue {
             return std::visit(
                 overload{
                     [&name, &clone_name](auto const& field) -> hpx::future<void>
-                    { return write(field, name, clone_name); }},
+                    { return lue::to_gdal(field, name, clone_name); }},
                 field.variant());
         }
 
@@ -158,7 +158,8 @@ namespace lue {
         auto to_gdal(Field const& field, std::string const& name) -> hpx::future<void>
         {
             return std::visit(
-                overload{[&name](auto const& field) -> hpx::future<void> { return write(field, name); }},
+                overload{
+                    [&name](auto const& field) -> hpx::future<void> { return lue::to_gdal(field, name); }},
                 field.variant());
         }
 
-- 
2.43.0

