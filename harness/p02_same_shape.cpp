// P02: values whose object arrays all have the same shape (constant, or constant shape and variable value): whatever is
// written for an object is what is read for it, through every way of reading, however the value grows.
#include "values.hpp"

using namespace mc;

// case: kind type shape nodata | op op op
//   kind: ss | sscs, as property of a property set; ass | asscs: value created in a plain group
//   op: eN expand by N; wL / w0 / wM write last, first, middle object; W write all; wr write objects [1, n);
//       wc write a hyperslab within an object array; R close and reopen; H open a second handle and continue with it

static std::vector<std::string> const ops{"e1", "e2", "e0", "wL", "w0", "W", "wr", "R", "H"};

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const thorough = tier == "thorough";
    for (int depth = 1; depth <= 3; ++depth)
    {
        for (std::string kind : {"ss", "sscs"})
        {
            for (std::string shape : {"-", "3", "2x2"})
            {
                sequences(ops, depth, "", [&](std::string const& s) { emit(kind + " i4 " + shape + " - | " + s); });
            }
        }
    }
    // All types, no-data values, shapes with a single or no cells, values of rank 4
    for (auto const& t : all_types)
    {
        for (std::string kind : {"ss", "sscs", "ass", "asscs"})
        {
            for (std::string shape : {"-", "1", "2x3", "1x2x1x3"})
            {
                for (std::string nd : {"-", "nd"})
                {
                    if (nd == "nd" && kind[0] != 'a')
                    {
                        continue;
                    }
                    for (std::string s :
                         {"e2 w0 e1 wL R", "e1 W e1 R w0 H wr", "e3 wr R W", "e0 R e2 R wM e1", "e2 H e1 W H e2 wL"})
                    {
                        emit(kind + " " + t + " " + shape + " " + nd + " | " + s);
                    }
                }
            }
        }
    }
    // Values that consist of more than one chunk
    for (std::string kind : {"ss", "sscs"})
    {
        for (std::string shape : {"700x500", "1100x3", "400000", "2x300x401"})
        {
            for (std::string s : {"e2 wL w0 e1 R wL", "e3 wr R W"})
            {
                emit(kind + " i4 " + shape + " - | " + s);
            }
        }
    }
    for (std::string kind : {"ss", "sscs"})
    {
        sequences(ops, 4, "", [&](std::string const& s) { emit(kind + " f8 2 - | " + s); });
    }
    if (thorough)
    {
        for (std::string kind : {"ss", "sscs", "ass", "asscs"})
        {
            sequences(ops, 5, "", [&](std::string const& s) { emit(kind + " i2 3 " + (kind[0] == 'a' ? "nd" : "-") + " | " + s); });
        }
    }
}

std::string crash_key(std::string const& c)
{
    return words(c)[0];
}

template<typename Value, typename T>
struct Run
{
    Rec& rec;
    std::string kind, c, path;
    Shape shape;
    bool nodata, property;
    T fill;
    Source<T> next;
    std::vector<T> model;   // all cells of all objects
    std::vector<bool> known;   // written, or there is a no-data value: otherwise its value is undefined
    std::size_t n{0};
    std::unique_ptr<ldm::Dataset> ds;
    std::unique_ptr<lh5::File> file;
    std::vector<std::unique_ptr<ldm::Dataset>> more;
    std::unique_ptr<Value> value;

    using Property = std::conditional_t<
        std::is_same_v<Value, ldm::same_shape::Value>, ldm::same_shape::Property, ldm::same_shape::constant_shape::Property>;
    using Collection = std::conditional_t<
        std::is_same_v<Value, ldm::same_shape::Value>, ldm::same_shape::Properties,
        ldm::same_shape::constant_shape::Properties>;

    auto get(ldm::Dataset& d) -> Value&
    {
        return d.phenomena()["p"].property_sets()["s"].properties().template collection<Collection>()["x"].value();
    }
    void create()
    {
        lh5::Datatype const dt{lh5::native_datatype<T>()};
        if (property)
        {
            ds = std::make_unique<ldm::Dataset>(ldm::create_dataset(path));
            auto& props = ds->add_phenomenon("p").property_sets().add("s").properties();
            if (shape.empty())
            {
                props.template add<Property>("x", dt);
            }
            else
            {
                props.template add<Property>("x", dt, shape);
            }
        }
        else
        {
            file = std::make_unique<lh5::File>(lh5::create_file(path));
            void const* nd = nodata ? &fill : nullptr;
            if constexpr (std::is_same_v<Value, ldm::same_shape::Value>)
            {
                shape.empty() ? ldm::same_shape::create_value(*file, "v", dt, nd)
                              : ldm::same_shape::create_value(*file, "v", dt, shape, nd);
            }
            else
            {
                shape.empty() ? ldm::same_shape::constant_shape::create_value(*file, "v", dt, nd)
                              : ldm::same_shape::constant_shape::create_value(*file, "v", dt, shape, nd);
            }
        }
        open();
    }
    void open()
    {
        if (property)
        {
            value = std::make_unique<Value>(get(*ds));
        }
        else
        {
            value = std::make_unique<Value>(*file, "v");
        }
    }
    void reopen()
    {
        value.reset();
        more.clear();
        if (property)
        {
            ds.reset();
            ds = std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR);
        }
        else
        {
            file.reset();
            file = std::make_unique<lh5::File>(path, H5F_ACC_RDWR);
        }
        open();
    }
    void second_handle()
    {
        if (property)
        {
            more.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
            value = std::make_unique<Value>(get(*more.back()));
        }
        else
        {
            value = std::make_unique<Value>(*file, "v");
        }
    }
    void compare(std::string const& op)
    {
        auto const k = size_of(shape);
        auto key = kind + " after " + op;
        rec.expect_eq(key + ": nr_arrays", value->nr_arrays(), n, c);
        Shape want_shape{shape};
        rec.expect(key + ": array_shape", value->array_shape() == want_shape, show_shape(value->array_shape()));
        Shape full{shape};
        full.insert(full.begin(), n);
        rec.expect(key + ": shape", value->shape() == full, show_shape(value->shape()));
        rec.expect(
            key + ": type", value->memory_datatype() == lh5::native_datatype<T>() && value->file_datatype().size() == sizeof(T),
            "type of the value");
        rec.expect_eq(key + ": has_no_data_value", value->has_no_data_value(), nodata, c);
        if (value->nr_arrays() != n || value->shape() != full)
        {
            return;
        }
        T const junk = static_cast<T>(111);
        auto check = [&](std::string const& how, std::size_t b, std::size_t e, auto&& read) {
            std::vector<T> got((e - b) * k + 1, junk);
            bool const all_known = std::all_of(known.begin() + b * k, known.begin() + e * k, [](bool x) { return x; });
            std::string why;
            if (!succeeds([&]() { read(got.data()); }, &why))
            {
                if (all_known)
                {
                    rec.violation(key + ": " + how, c + ": cannot be read: " + why);
                }
                return;
            }
            rec.expect(key + ": " + how + " reads too much", got.back() == junk, c);
            got.pop_back();
            std::vector<T> want(model.begin() + b * k, model.begin() + e * k);
            for (std::size_t i = 0; i < want.size(); ++i)
            {
                if (!known[b * k + i])
                {
                    got[i] = want[i] = T{};
                }
            }
            if (got != want)
            {
                rec.violation(
                    key + ": " + how,
                    c + ": objects [" + std::to_string(b) + "," + std::to_string(e) + ") are " + show_values(got) +
                        ", expected " + show_values(want));
            }
        };
        if (n * k == 0)
        {
            return;
        }
        check("read all", 0, n, [&](T* b) { static_cast<ldm::Array&>(*value).read(b); });
        if (n * k > 100000)
        {
            check("read last", n - 1, n, [&](T* b) { value->read(ldm::Index{n - 1}, b); });
            check("read range", 0, n, [&](T* b) { value->read(ldm::IndexRange{0, n}, b); });
            return;
        }
        for (std::size_t i = 0; i < n; ++i)
        {
            check("read object", i, i + 1, [&](T* b) { value->read(ldm::Index{i}, b); });
            for (std::size_t j = i + 1; j <= n; ++j)
            {
                check("read range", i, j, [&](T* b) { value->read(ldm::IndexRange{i, j}, b); });
            }
        }
    }
    void all(std::string const& spec)
    {
        create();
        compare("create");
        auto const k = size_of(shape);
        for (auto const& op : words(spec))
        {
            auto put = [&](std::size_t b, std::size_t e, auto&& write) {
                auto v = next.many((e - b) * k);
                std::copy(v.begin(), v.end(), model.begin() + b * k);
                std::fill(known.begin() + b * k, known.begin() + e * k, true);
                if (!v.empty())
                {
                    write(v.data());
                }
            };
            if (op[0] == 'e')
            {
                std::size_t const by = std::stoul(op.substr(1));
                value->expand(by);
                n += by;
                model.resize(n * k, fill);
                known.resize(n * k, nodata);
            }
            else if (op == "R")
            {
                reopen();
            }
            else if (op == "H")
            {
                second_handle();
            }
            else if (n == 0)
            {
            }
            else if (op == "wL")
            {
                put(n - 1, n, [&](T* b) { value->write(ldm::Index{n - 1}, b); });
            }
            else if (op == "w0")
            {
                put(0, 1, [&](T* b) { value->write(ldm::Index{0}, b); });
            }
            else if (op == "wM")
            {
                put(n / 2, n / 2 + 1, [&](T* b) { value->write(ldm::Index{n / 2}, b); });
            }
            else if (op == "wr")
            {
                if (n > 1)
                {
                    put(1, n, [&](T* b) { value->write(ldm::IndexRange{1, n}, b); });
                }
            }
            else if (op == "W")
            {
                put(0, n, [&](T* b) { static_cast<ldm::Array&>(*value).write(b); });
            }
            rec.trans();
            compare(op.substr(0, 1) == "e" ? "expand" : op);
            std::string s = kind + show_shape(shape) + std::to_string(n);
            for (std::size_t i = 0; i < model.size() && i < 64; ++i)
            {
                s += known[i] && model[i] != fill ? 'x' : '.';
            }
            rec.state(s);
        }
        reopen();
        compare("the last reopening");
        rec.outcome(kind + show_shape(shape) + std::to_string(n) + spec.substr(0, 2));
        rec.trace();
        value.reset();
        more.clear();
        ds.reset();
        file.reset();
        std::filesystem::remove(path);
    }
};

void run(std::string const& c, Rec& rec)
{
    auto const bar = c.find(" | ");
    auto const head = words(c.substr(0, bar));
    auto const spec = c.substr(bar + 3);
    with_type(head[1], [&](auto t) {
        using T = decltype(t);
        bool const nd = head[3] == "nd";
        bool const property = head[0][0] != 'a';
        auto const kind = property ? head[0] : head[0].substr(1);
        T const fill = nd ? static_cast<T>(99) : T{};
        if (kind == "ss")
        {
            Run<ldm::same_shape::Value, T> r{rec, head[0], c, rec.scratch + "/f.lue", parse_shape(head[2]), nd, property, fill};
            r.all(spec);
        }
        else
        {
            Run<ldm::same_shape::constant_shape::Value, T> r{
                rec, head[0], c, rec.scratch + "/f.lue", parse_shape(head[2]), nd, property, fill};
            r.all(spec);
        }
    });
}

MC_MAIN
