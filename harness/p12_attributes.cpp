// P12: attributes of HDF5 objects
#include "values.hpp"

using namespace mc;

// case: a <object> | op op ..    object: f file, g group, d dataset.  op is <name><what>, or R (reopen), H (second handle)
//           what: a string (s0, s1, ..), a number (n0, ..) or numbers (v0, ..) from the lists below
//       e <type>       every way of writing and reading a value of this type, with conversion
//       t              datatypes of strings, compound datatypes
//       b <n>          a string of n bytes

static std::vector<std::string> const strings{"a", "bc", "de", "fghij", "é", "日本語 text", std::string("x\0y", 3), std::string(300, 'k'), " ", "\n",
    std::string("w\0", 2), std::string("\0", 1), std::string("\0\0v\0\0", 5), "u ", "  t"};

// the kinds of numbers
static std::vector<std::string> const numbers{"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"};
static std::vector<std::size_t> const lengths{1, 2, 5};

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    emit("t");
    for (auto const& t : numbers) emit("e " + t);
    for (int i = 1; i <= 300; ++i) emit("b " + std::to_string(i));
    for (int i : {1000, 4095, 4096, 30000, 60000, 64000, 65000, 65535, 65536, 70000}) emit("b " + std::to_string(i));
    std::vector<std::string> what;
    for (std::size_t i = 0; i < strings.size(); ++i) what.push_back("s" + std::to_string(i));
    for (std::size_t i = 0; i < numbers.size(); ++i) what.push_back("n" + std::to_string(i));
    for (std::size_t i = 0; i < 2 * lengths.size(); ++i) what.push_back("v" + std::to_string(i));
    std::vector<std::string> ops{"R", "H"};
    for (auto const& w : what) ops.push_back("x" + w);
    for (std::string w : {"s1", "n4", "v1"}) ops.push_back("y" + w);
    for (std::string o : {"f", "g", "d"})
    {
        for (int depth = 1; depth <= (deep ? 3 : 2); ++depth)
        {
            sequences(ops, depth, "a " + o + " |", emit);
        }
        std::vector<std::string> few{"xs0", "xs3", "xn4", "xn7", "xv1", "xv2", "ys3", "R", "H"};
        for (int depth = 3; depth <= (deep ? 5 : 4); ++depth)
        {
            sequences(few, depth, "a " + o + " |", emit);
        }
    }
}

std::string crash_key(std::string const& c)
{
    return words(c)[0];
}

static void attribute_history(Rec& rec, std::string const& c)
{
    auto const path = rec.scratch + "/a.h5";
    char const kind = c[2];
    std::vector<std::unique_ptr<lh5::File>> files;
    std::vector<std::unique_ptr<lh5::PrimaryDataObject>> objects;
    files.push_back(std::make_unique<lh5::File>(lh5::create_file(path)));
    lh5::create_group(*files.back(), "g");
    lh5::create_dataset(files.back()->id(), "d", lh5::std_int32_le, lh5::create_dataspace(Shape{2}), {});
    auto open = [&]() {
        auto& f = *files.back();
        if (kind == 'f') objects.push_back(std::make_unique<lh5::PrimaryDataObject>(f));
        if (kind == 'g') objects.push_back(std::make_unique<lh5::Group>(f, "g"));
        if (kind == 'd') objects.push_back(std::make_unique<lh5::Dataset>(f, "d"));
    };
    open();
    std::map<std::string, std::pair<std::string, std::string>> model;   // name -> what, value as a string
    Source<double> next;
    auto text = [](auto const& v) {
        std::ostringstream s;
        for (auto x : v) s << +x << " ";
        return s.str();
    };
    for (auto const& op : words(c.substr(c.find('|') + 2)))
    {
        std::string key;
        if (op == "R")
        {
            objects.clear(), files.clear();
            files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
            open();
        }
        else if (op == "H")
        {
            files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
            open();
        }
        else
        {
            auto const name = op.substr(0, 1);
            auto const n = std::stoul(op.substr(2));
            auto& a = objects.back()->attributes();
            auto const before = model.contains(name) ? model[name].first.substr(0, 1) : "nothing";
            key = std::string(": ") + op[1] + " after " + before;
            if (op[1] == 's')
            {
                a.write<std::string>(name, strings[n]);
                model[name] = {op.substr(1), strings[n]};
            }
            else if (op[1] == 'n')
            {
                with_type(numbers[n], [&](auto t) {
                    t = static_cast<decltype(t)>(next() * 3);
                    a.write<decltype(t)>(name, t);
                    model[name] = {op.substr(1), text(std::vector{t})};
                });
            }
            else
            {
                auto const length = lengths[n / 2];
                if (n % 2 == 0)
                {
                    std::vector<std::int32_t> v;
                    for (std::size_t i = 0; i < length; ++i) v.push_back(next() * 5);
                    a.write(name, v);
                    model[name] = {op.substr(1), text(v)};
                }
                else
                {
                    Shape v;
                    for (std::size_t i = 0; i < length; ++i) v.push_back(next() * 7);
                    a.write<std::vector<hsize_t>>(name, v);
                    model[name] = {op.substr(1), text(v)};
                }
            }
        }
        rec.trans();
        for (auto const& o : objects)
        {
            auto const& a = std::as_const(*o).attributes();
            for (std::string name : {"x", "y", "z"})
            {
                rec.expect_eq("a: exists" + key, a.exists(name), model.contains(name), c);
                rec.expect_eq("a: contains_attribute" + key, o->contains_attribute(name), model.contains(name), c);
                if (!model.contains(name) || !a.exists(name))
                {
                    continue;
                }
                auto const& [what, value] = model[name];
                auto const n = std::stoul(what.substr(1));
                std::string got;
                bool const ok = succeeds([&]() {
                    if (what[0] == 's')
                    {
                        got = a.read<std::string>(name);
                        rec.expect("a: datatype" + key, a.datatype(name).is_string() && a.datatype(name).size() == value.size(), c);
                    }
                    else if (what[0] == 'n')
                    {
                        with_type(numbers[n], [&](auto t) {
                            rec.expect("a: datatype" + key, a.datatype(name) == lh5::native_datatype<decltype(t)>(), c);
                            got = a.datatype(name).size() <= sizeof(t) ? text(std::vector{a.template read<decltype(t)>(name)}) : "too large";
                        });
                    }
                    else if (a.datatype(name).is_string())
                    {
                        got = "a string";
                    }
                    else if (n % 2 == 0)
                    {
                        got = text(a.read<std::vector<std::int32_t>>(name));
                    }
                    else
                    {
                        got = text(a.read<std::vector<hsize_t>>(name));
                    }
                });
                rec.expect("a: value" + key, ok && got == value, c + ": attribute " + name + ": " + got + ", expected " + value);
            }
        }
        std::string state;
        for (auto const& [name, v] : model) state += name + v.first;
        rec.state(state + kind + std::to_string(objects.size()));
        rec.outcome(op + state);
    }
    rec.trace();
    objects.clear(), files.clear();
    std::filesystem::remove(path);
}

template<typename T>
static void typed(Rec& rec, std::string const& c)
{
    auto file = lh5::create_file(rec.scratch + "/e.h5");
    auto const mem = lh5::native_datatype<T>();
    Source<T> next;
    auto& a = file.attributes();
    // In-file datatype, in-memory datatype
    std::set<std::string> done;
    for (auto const& other : all_types)
    {
        with_type(other, [&](auto u) {
            using U = decltype(u);
            auto at = a.add("x" + other, lh5::file_datatype(lh5::native_datatype<U>()), lh5::Dataspace{H5S_SCALAR});
            T const v = static_cast<T>(next() / 2) ;
            if (static_cast<long double>(v) != static_cast<long double>(static_cast<U>(v)) || static_cast<long double>(static_cast<T>(static_cast<U>(v))) != v)
            {
                return;
            }
            at.write(mem, v);
            struct { T before{77}, v{0}, after{77}; } r;
            at.read(mem, r.v);
            rec.expect("e: value", r.v == v && r.before == T{77} && r.after == T{77}, c + " as " + other);
            rec.expect("e: datatypes", at.datatype() == lh5::file_datatype(lh5::native_datatype<U>()) && at.dataspace().nr_elements() == 1, c);
            rec.expect("e: in the type of the file", a.template read<U>("x" + other) == static_cast<U>(v), c + " as " + other);
            rec.trans(2), rec.outcome(c + other), rec.state(c + other);
        });
    }
    // Twice the same name
    rec.expect("e: added twice", !succeeds([&]() { a.add("xi1", lh5::native_datatype<T>(), lh5::Dataspace{H5S_SCALAR}); }), c);
    rec.expect("e: created twice", !succeeds([&]() { lh5::create_attribute(file.id(), "xi1", T{1}); }), c);
    auto v = lh5::create_attribute(file.id(), "v", next());
    rec.expect("e: created", v.datatype() == mem && a.exists("v") && a.attribute("v").id() == file.id(), c);
    rec.trace();
}

static void types(Rec& rec, std::string const& c)
{
    for (std::size_t i = 1; i <= 40; ++i)
    {
        auto t = lh5::create_datatype(i);
        rec.expect("t: string", t.is_string() && t.size() == i && t.encoding() == H5T_CSET_UTF8 && t.class_() == H5T_STRING &&
            !t.is_native() && !t.is_standard(), c + std::to_string(i));
        for (std::size_t j = 1; j <= 40; ++j)
        {
            rec.expect("t: equality", (t == lh5::create_datatype(j)) == (i == j) && (t != lh5::create_datatype(j)) == (i != j), c);
            rec.trans();
        }
        rec.expect("t: encode", lh5::decode_datatype(lh5::encode_datatype(t)) == t, c);
        rec.expect("t: file and memory", lh5::file_datatype(t) == t && lh5::memory_datatype(t) == t, c);
        rec.state("t" + std::to_string(i)), rec.outcome("t" + std::to_string(i));
    }
    rec.expect("t: no bytes", !succeeds([&]() { lh5::create_datatype(0); }), c);
    auto v = lh5::create_string_datatype();
    rec.expect("t: variable", v.is_string() && H5Tis_variable_str(v.id()) > 0 && v.encoding() == H5T_CSET_UTF8 && v != lh5::create_datatype(8), c);
    rec.expect("t: native and standard string", lh5::native_datatype<std::string>() == v && lh5::std_datatype<std::string>() == v &&
        lh5::native_datatype_as_string(v) == "string" && lh5::standard_datatype_as_string(v) == "string", c);
    rec.expect("t: decode nonsense", !succeeds([&]() { lh5::decode_datatype({1, 2, 3, 4, 5, 6, 7, 8, 9}); }), c);
    for (std::size_t n = 8; n <= 24; n += 8)
    {
        auto t = lh5::create_compound_datatype(n);
        for (std::size_t i = 0; i < n; i += 8) t.insert("m" + std::to_string(i), i, lh5::native_float64);
        rec.expect("t: compound", t.size() == n && t.class_() == H5T_COMPOUND && H5Tget_nmembers(t.id()) == static_cast<int>(n / 8), c);
        rec.expect("t: compound twice the same member", !succeeds([&]() { t.insert("m0", 0, lh5::native_float64); }), c);
        rec.expect("t: compound too large a member", !succeeds([&]() { t.insert("q", n - 4, lh5::native_float64); }), c);
        rec.expect("t: compound encode", lh5::decode_datatype(lh5::encode_datatype(t)) == t, c);
    }
    rec.expect("t: encoding of numbers", !succeeds([&]() { lh5::Datatype{lh5::native_int32}.encoding(); }), c);
    rec.trace();
}

static void bytes(Rec& rec, std::string const& c)
{
    std::size_t const n = std::stoul(c.substr(2));
    std::string v(n, ' ');
    for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<char>(i * 7 % 255 + 1);
    auto const path = rec.scratch + "/b.h5";
    bool ok = false;
    {
        auto file = lh5::create_file(path);
        file.attributes().write<std::string>("x", "previous");
        ok = succeeds([&]() { file.attributes().write<std::string>("x", v); });
        rec.expect("b: limit", ok == (n < 64600) || (n > 64000 && n < 65536), c);
        auto const want = ok ? v : "previous";
        rec.expect("b: value", file.attributes().read<std::string>("x") == want, c);
    }
    lh5::File file{path};
    rec.expect("b: value after reopening", file.attributes().exists("x") && file.attributes().read<std::string>("x") == (ok ? v : "previous"), c);
    rec.expect_eq("b: number of attributes", file.id().info().operator==(file.id().info()) ? [&] {
        H5O_info_t i; H5Oget_info(file.id(), &i); return static_cast<int>(i.num_attrs); }() : -1, 2, c);
    rec.trans(), rec.trace(), rec.state(c), rec.outcome(c);
}

void run(std::string const& c, Rec& rec)
{
    if (c[0] == 'a') attribute_history(rec, c);
    else if (c[0] == 'e') with_type(c.substr(2), [&](auto t) { typed<decltype(t)>(rec, c); });
    else if (c[0] == 't') types(rec, c);
    else bytes(rec, c);
}

MC_MAIN
