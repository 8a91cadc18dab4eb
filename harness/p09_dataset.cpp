// P09: HDF5 datasets: selections, filling, resizing, conversion
#include "values.hpp"

using namespace mc;

// case: s <type> <shape> <c|k> <memory rank: s same, 1>   every selection of this shape, contiguous or chunked layout
//       x <file type> <memory type>                conversion of values both types can represent
//       h <fill: - or f> | op op                   history on a two-dimensional dataset
//           r<r>x<c> resize   w write all   W write a selection   S write a strided selection   f fill a selection
//           E selection outside of the dataset      N wrong number of values    C create it again    R reopen    H second handle

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    std::vector<std::string> shapes{"1", "2", "3", "5", "1x1", "2x2", "2x3", "3x2", "1x4", "4x1", "2x2x2"};
    if (deep)
    {
        for (std::string s : {"7", "3x4", "4x3", "5x2", "3x2x2", "2x3x2", "2x2x2x2"}) shapes.push_back(s);
    }
    for (auto const& t : all_types)
    {
        for (auto const& s : shapes)
        {
            for (std::string l : {"c", "k"})
            {
                for (std::string m : {"s", "1"})
                {
                    emit("s " + t + " " + s + " " + l + " " + m);
                }
            }
        }
        for (auto const& u : all_types)
        {
            emit("x " + t + " " + u);
        }
    }
    std::vector<std::string> ops{"r2x3", "r3x2", "r1x1", "r4x4", "r0x2", "w", "W", "S", "f", "E", "N", "C", "R", "H"};
    for (std::string fill : {"-", "f"})
    {
        for (int depth = 1; depth <= 3; ++depth)
        {
            sequences(ops, depth, "h " + fill + " |", emit);
        }
        sequences({"r3x2", "r4x4", "w", "S", "f", "R"}, 4, "h " + fill + " |", emit);
        if (deep)
        {
            sequences(ops, 4, "h " + fill + " |", emit);
            sequences({"r3x2", "r4x4", "w", "S", "f", "H"}, 6, "h " + fill + " |", emit);
        }
    }
}

std::string crash_key(std::string const& c)
{
    return c.substr(0, 1);
}

struct Sel
{
    std::vector<hsize_t> start, stride, count;
};

// All selections of a shape, including those with a stride which does not matter
static void selections(Shape const& shape, std::size_t d, Sel s, std::function<void(Sel const&)> const& f)
{
    if (d == shape.size())
    {
        f(s);
        return;
    }
    for (hsize_t a = 0; a < shape[d]; ++a)
    {
        for (hsize_t st = 1; st <= shape[d]; ++st)
        {
            for (hsize_t n = 1; a + (n - 1) * st < shape[d]; ++n)
            {
                auto t = s;
                t.start.push_back(a), t.stride.push_back(st), t.count.push_back(n);
                selections(shape, d + 1, t, f);
            }
        }
    }
}

static auto slab(Sel const& s) -> lh5::Hyperslab
{
    return {lh5::Offset(s.start.begin(), s.start.end()), lh5::Stride(s.stride.begin(), s.stride.end()),
        lh5::Count(s.count.begin(), s.count.end())};
}

// Positions in the array of the selected elements, in order
static auto positions(Shape const& shape, Sel const& s) -> std::vector<std::size_t>
{
    std::vector<std::size_t> r{0};
    for (std::size_t d = 0; d < shape.size(); ++d)
    {
        std::vector<std::size_t> n;
        for (auto p : r)
        {
            for (hsize_t k = 0; k < s.count[d]; ++k)
            {
                n.push_back(p * shape[d] + s.start[d] + k * s.stride[d]);
            }
        }
        r = n;
    }
    return r;
}

static auto show(Sel const& s) -> std::string
{
    std::string r;
    for (std::size_t d = 0; d < s.start.size(); ++d)
    {
        r += "[" + std::to_string(s.start[d]) + ":" + std::to_string(s.stride[d]) + ":" + std::to_string(s.count[d]) + "]";
    }
    return r;
}

template<typename T>
static void all_selections(Rec& rec, std::string const& c, std::vector<std::string> const& w)
{
    auto const shape = parse_shape(w[2]);
    auto const path = rec.scratch + "/s.h5";
    auto file = lh5::create_file(path);
    lh5::Dataset::CreationPropertyList plist{};
    if (w[3] == "k")
    {
        Shape chunk = shape;
        for (auto& x : chunk) x = x > 2 ? 2 : x;
        plist.set_chunk(chunk);
    }
    auto const mem = lh5::native_datatype<T>();
    auto ds = lh5::create_dataset(file.id(), "d", lh5::file_datatype(mem), lh5::create_dataspace(shape), plist);
    rec.expect("s: shape", ds.shape() == shape, c);
    rec.expect("s: datatype", ds.datatype() == lh5::file_datatype(mem), c);
    rec.expect("s: memory_datatype", lh5::memory_datatype(ds.datatype()) == mem, c);
    auto const n = size_of(shape);
    Source<T> next;
    auto model = next.many(n);
    ds.write(mem, model.data());
    auto check = [&](std::string const& key, std::string const& at) {
        std::vector<T> got(n + 2, T{77});
        ds.read(mem, got.data() + 1);
        rec.expect("s: " + key + ": outside of the buffer", got.front() == T{77} && got.back() == T{77}, c + at);
        got.erase(got.begin());
        got.pop_back();
        rec.expect("s: " + key, got == model, c + at + ": " + show_values(got) + ", expected " + show_values(model));
    };
    selections(shape, 0, {}, [&](Sel const& s) {
        auto const at = " " + show(s);
        auto const ps = positions(shape, s);
        auto const h = slab(s);
        rec.trans(3);
        rec.expect_eq("s: nr_elements", h.nr_elements(), ps.size(), c + at);
        rec.expect("s: empty", !h.empty(), c + at);
        rec.expect("s: parts", h.start() == lh5::Offset(s.start.begin(), s.start.end()) &&
            h.stride() == lh5::Stride(s.stride.begin(), s.stride.end()) && h.count() == lh5::Count(s.count.begin(), s.count.end()) &&
            h.nr_dimensions() == shape.size(), c + at);
        // Write
        auto x = next.many(ps.size());
        auto const space = lh5::create_dataspace(Shape{ps.size()});
        w[4] == "s" ? ds.write(mem, h, x.data()) : ds.write(mem, space, h, x.data());
        for (std::size_t i = 0; i < ps.size(); ++i)
        {
            model[ps[i]] = x[i];
        }
        check("write a selection", at);
        // Read
        std::vector<T> got(ps.size() + 2, T{77});
        w[4] == "s" ? ds.read(mem, h, got.data() + 1) : ds.read(mem, space, h, got.data() + 1);
        rec.expect("s: read a selection: outside of the buffer", got.front() == T{77} && got.back() == T{77}, c + at);
        rec.expect("s: read a selection", std::equal(x.begin(), x.end(), got.begin() + 1), c + at + ": " + show_values(got));
        // Fill
        auto const v = next();
        ds.fill(mem, h, &v);
        for (auto p : ps)
        {
            model[p] = v;
        }
        check("fill a selection", at);
        rec.state(w[2] + w[1] + at);
    });
    // The same file, opened again
    rec.expect("s: dataset_exists", lh5::dataset_exists(file.id(), "d") && !lh5::dataset_exists(file.id(), "e"), c);
    rec.outcome(w[1] + w[2] + w[3] + show_values(model));
    rec.trace();
    auto const other = lh5::open_dataset(file.id(), "d");
    std::vector<T> got(n);
    other.read(mem, got.data());
    rec.expect("s: other handle", got == model && other == ds, c);
}

template<typename F, typename M>
static void convert(Rec& rec, std::string const& c)
{
    auto file = lh5::create_file(rec.scratch + "/x.h5");
    // Values both can represent
    std::vector<long double> all{0, 1, 2, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 16777216, 2147483647.0L,
        2147483648.0L, 4294967295.0L, 4294967296.0L, 9223372036854775807.0L, 18446744073709551615.0L, 0.5L, 0.25L, 1e30L};
    for (std::size_t i = 0, k = all.size(); i < k; ++i) all.push_back(-all[i]);
    auto fits = [](auto t, long double v) {
        using X = decltype(t);
        return v >= static_cast<long double>(std::numeric_limits<X>::lowest()) &&
               v <= static_cast<long double>(std::numeric_limits<X>::max()) &&
               static_cast<long double>(static_cast<X>(v)) == v;
    };
    std::vector<M> in;
    for (auto v : all)
    {
        if (fits(F{}, v) && fits(M{}, v))
        {
            in.push_back(static_cast<M>(v));
        }
    }
    auto const fm = lh5::native_datatype<F>(), m = lh5::native_datatype<M>();
    auto ds = lh5::create_dataset(file.id(), "d", lh5::file_datatype(fm), lh5::create_dataspace(Shape{in.size()}), {});
    ds.write(m, in.data());
    std::vector<M> out(in.size());
    ds.read(m, out.data());
    rec.expect("x: as written", in == out, c + ": " + show_values(out));
    std::vector<F> stored(in.size()), expected(in.begin(), in.end());
    ds.read(fm, stored.data());
    rec.expect("x: converted", stored == expected, c + ": " + show_values(stored));
    rec.expect("x: sizes", fm.size() == sizeof(F) && m.size() == sizeof(M), c);
    rec.expect("x: equality", (fm == m) == std::is_same_v<F, M> && (fm != m) == !std::is_same_v<F, M>, c);
    rec.expect("x: names", (lh5::native_datatype_as_string(fm) == lh5::native_datatype_as_string(m)) == std::is_same_v<F, M> &&
        (lh5::standard_datatype_as_string(lh5::file_datatype(fm)) == lh5::standard_datatype_as_string(lh5::file_datatype(m))) ==
            std::is_same_v<F, M>, c);
    rec.expect("x: kinds", fm.is_native() && lh5::file_datatype(fm).is_standard() && !fm.is_string() &&
        lh5::is_native_floating_point(fm) == std::is_floating_point_v<F> &&
        lh5::is_native_signed_integral(fm) == (std::is_integral_v<F> && std::is_signed_v<F>) &&
        lh5::is_native_unsigned_integral(fm) == (std::is_integral_v<F> && std::is_unsigned_v<F>) &&
        lh5::is_ieee_floating_point_le(lh5::file_datatype(fm)) == std::is_floating_point_v<F> &&
        lh5::is_std_signed_integral_le(lh5::file_datatype(fm)) == (std::is_integral_v<F> && std::is_signed_v<F>) &&
        lh5::is_std_unsigned_integral_le(lh5::file_datatype(fm)) == (std::is_integral_v<F> && std::is_unsigned_v<F>), c);
    rec.expect("x: encoding", lh5::decode_datatype(lh5::encode_datatype(fm)) == fm, c);
    // Fill values
    lh5::Dataset::CreationPropertyList p{};
    rec.expect("x: no fill value", !p.fill_value_defined(), c);
    auto const v = in.back();
    p.set_fill_value(v);
    rec.expect("x: fill value", p.fill_value_defined() && p.get_fill_value<M>() == v && p.get_fill_value<F>() == static_cast<F>(v), c);
    auto filled = lh5::create_dataset(file.id(), "f", lh5::file_datatype(fm), lh5::create_dataspace(Shape{3}), p);
    std::vector<F> f(3), e(3, static_cast<F>(v));
    filled.read(fm, f.data());
    rec.expect("x: filled", f == e, c + ": " + show_values(f));
    rec.expect("x: fill value of dataset", filled.creation_property_list().fill_value_defined() &&
        filled.creation_property_list().template get_fill_value<F>() == static_cast<F>(v), c);
    rec.expect("x: no fill value of dataset", !ds.creation_property_list().fill_value_defined(), c);
    rec.trans(4), rec.trace(), rec.state(c), rec.outcome(c + show_values(stored));
}

using T = std::int32_t;

static void history(Rec& rec, std::string const& c, std::vector<std::string> const& w)
{
    auto const path = rec.scratch + "/h.h5";
    bool const fill = w[1] == "f";
    T const nd = -999;
    auto const mem = lh5::native_datatype<T>();
    Shape shape{2, 2};
    std::vector<std::unique_ptr<lh5::File>> files;
    files.push_back(std::make_unique<lh5::File>(lh5::create_file(path)));
    std::vector<lh5::Dataset> handles;
    {
        lh5::Dataset::CreationPropertyList p{};
        p.set_chunk({2, 2});
        if (fill)
        {
            p.set_fill_value(nd);
        }
        handles.push_back(lh5::create_dataset(files.back()->id(), "d", lh5::file_datatype(mem),
            lh5::create_dataspace(shape, {H5S_UNLIMITED, H5S_UNLIMITED}), p));
    }
    std::vector<T> model(4, nd);
    std::vector<char> known(4, fill);
    Source<T> next;
    auto store = [&](Sel const& s, std::vector<T> const& x) {
        auto const ps = positions(shape, s);
        for (std::size_t i = 0; i < ps.size(); ++i)
        {
            model[ps[i]] = x[i % x.size()], known[ps[i]] = 1;
        }
    };
    for (auto const& op : words(c.substr(c.find('|') + 2)))
    {
        auto& ds = handles.back();
        // The last row and column, and every other of them
        Sel corner{{shape[0] - 1, 0}, {1, 1}, {1, shape[1]}}, strided{{0, shape[1] - 1}, {2, 1}, {(shape[0] + 1) / 2, 1}};
        bool const none = size_of(shape) == 0;
        if (op[0] == 'r')
        {
            auto const s = parse_shape(op.substr(1));
            ds.resize(s);
            std::vector<T> m(size_of(s), nd);
            std::vector<char> k(size_of(s), fill);
            for (std::size_t i = 0; i < std::min(s[0], shape[0]); ++i)
            {
                for (std::size_t j = 0; j < std::min(s[1], shape[1]); ++j)
                {
                    m[i * s[1] + j] = model[i * shape[1] + j], k[i * s[1] + j] = known[i * shape[1] + j];
                }
            }
            model = m, known = k, shape = s;
        }
        else if (op == "w" && !none)
        {
            model = next.many(model.size());
            known.assign(model.size(), 1);
            ds.write(mem, model.data());
        }
        else if (op == "W" && !none)
        {
            auto x = next.many(shape[1]);
            ds.write(mem, slab(corner), x.data());
            store(corner, x);
        }
        else if (op == "S" && !none)
        {
            auto x = next.many(strided.count[0]);
            ds.write(mem, slab(strided), x.data());
            store(strided, x);
        }
        else if (op == "f" && !none)
        {
            auto v = next();
            ds.fill(mem, slab(strided), &v);
            store(strided, {v});
        }
        else if (op == "E")
        {
            for (int d = 0; d < 2; ++d)
            {
                Sel s{{0, 0}, {1, 1}, {1, 1}};
                s.start[d] = shape[d];
                auto x = next.many(1);
                rec.expect("h: selection outside of the dataset is written", !succeeds([&]() { ds.write(mem, slab(s), x.data()); }), c);
                rec.expect("h: selection outside of the dataset is read", !succeeds([&]() { ds.read(mem, slab(s), x.data()); }), c);
                rec.expect("h: selection outside of the dataset is filled", !succeeds([&]() { ds.fill(mem, slab(s), x.data()); }), c);
                Sel t{{0, 0}, {1, 1}, {shape[0], shape[1]}};
                t.count[d] += 1;
                auto y = next.many(2 * (size_of(shape) + 20));
                rec.expect("h: selection too large is written", !succeeds([&]() { ds.write(mem, slab(t), y.data()); }) || none, c);
            }
        }
        else if (op == "N" && !none)
        {
            auto x = next.many(100);
            rec.expect("h: wrong number of values is written",
                !succeeds([&]() { ds.write(mem, lh5::create_dataspace(Shape{size_of(shape) + 1}), x.data()); }), c);
        }
        else if (op == "C")
        {
            rec.expect("h: created twice", !succeeds([&]() {
                lh5::create_dataset(files.back()->id(), "d", lh5::file_datatype(mem), lh5::create_dataspace(Shape{1}), {});
            }), c);
            rec.expect("h: opened missing one", !succeeds([&]() { lh5::Dataset{*files.back(), "q"}; }) &&
                !succeeds([&]() { lh5::open_dataset(files.back()->id(), "q"); }), c);
        }
        else if (op == "R")
        {
            handles.clear();
            files.clear();
            files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
            handles.emplace_back(*files.back(), "d");
        }
        else if (op == "H")
        {
            files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
            handles.push_back(lh5::open_dataset(files.back()->id(), "d"));
        }
        rec.trans();
        for (auto const& h : handles)
        {
            auto const key = "h: after " + op.substr(0, 1) + ": ";
            rec.expect(key + "shape", h.shape() == shape, c + ": " + show_shape(h.shape()) + ", expected " + show_shape(shape));
            rec.expect_eq(key + "number of elements", static_cast<std::size_t>(h.dataspace().nr_elements()), size_of(shape), c);
            rec.expect_eq(key + "rank", h.dataspace().nr_dimensions(), 2, c);
            if (h.shape() != shape)
            {
                return;
            }
            if (!fill && std::count(known.begin(), known.end(), 1) == 0)
            {
                continue;  // HDF5 refuses to read when there is nothing to read
            }
            std::vector<T> got(model.size() + 1, 77);
            h.read(mem, got.data());
            rec.expect(key + "outside of the buffer", got.back() == 77, c);
            for (std::size_t i = 0; i < model.size(); ++i)
            {
                if (known[i])
                {
                    rec.expect(key + "elements", got[i] == model[i], c + ": " + show_values(got) + ", expected " + show_values(model));
                }
            }
        }
        rec.state(show_shape(shape) + std::string(known.begin(), known.end()) + w[1] + std::to_string(handles.size()));
        rec.outcome(op + show_shape(shape) + show_values(model));
    }
    rec.trace();
}

void run(std::string const& c, Rec& rec)
{
    auto w = words(c);
    if (w[0] == "s")
    {
        with_type(w[1], [&](auto t) { all_selections<decltype(t)>(rec, c, w); });
    }
    else if (w[0] == "x")
    {
        with_type(w[1], [&](auto t) { with_type(w[2], [&](auto u) { convert<decltype(t), decltype(u)>(rec, c); }); });
    }
    else
    {
        history(rec, c, w);
    }
}

MC_MAIN
