// P03: values whose object arrays differ in shape, per object or through time: whatever is written for an object (and
// location in time) is what is read for it; the counts are the number of items added.
#include "values.hpp"

using namespace mc;

// case: kind type rank nodata | op op op
// kind: ssvs  (same shape, variable shape): an array per location in time
//       ds    (different shape, constant value): an array per object
//       dscs  (different shape, constant shape, variable value): an array per object, with locations in time
//       dsvs  (different shape, variable shape): per location in time, an array per object
// op:   + add the next item (one object, or one location in time) with the next shape; ++ add two at once;
//       +f add two at once, shapes passed as a flat list of sizes (ds);
//       w0 / wL write the first / last item completely; wi write part of the last item; x expand the last item (dscs)
//       ! add an item that exists already (where that must be rejected); R close and reopen; H second handle

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const thorough = tier == "thorough";
    std::map<std::string, std::vector<std::string>> ops{
        {"ssvs", {"+", "w0", "wL", "wi", "!", "R", "H"}},
        {"ds", {"+", "++", "+f", "w0", "wL", "R", "H"}},
        {"dscs", {"+", "++", "w0", "wL", "wi", "x", "!", "R", "H"}},
        {"dsvs", {"+", "++", "w0", "wL", "wi", "!", "R", "H"}}};
    for (int depth = 1; depth <= 3; ++depth)
    {
        for (auto const& [kind, alphabet] : ops)
        {
            for (std::string rank : {"2", "1", "3"})
            {
                sequences(alphabet, depth, "", [&](std::string const& s) { emit(kind + " i4 " + rank + " - | " + s); });
            }
        }
    }
    for (auto const& t : all_types)
    {
        for (auto const& [kind, alphabet] : ops)
        {
            for (std::string rank : {"1", "2", "4"})
            {
                for (std::string s : {"+ wL + w0 R + wL", "+ H + w0 wL R wL", "++ wL w0 R ++ w0 + wL"})
                {
                    if (kind == "ssvs" && s[1] == '+')
                    {
                        continue;
                    }
                    emit(kind + " " + t + " " + rank + " - | " + s);
                    if (kind == "ds")
                    {
                        emit(kind + " " + t + " " + rank + " nd | " + s);
                    }
                }
            }
        }
    }
    for (auto const& [kind, alphabet] : ops)
    {
        sequences(alphabet, 4, "", [&](std::string const& s) { emit(kind + " f8 2 - | " + s); });
    }
    if (thorough)
    {
        for (auto const& [kind, alphabet] : ops)
        {
            sequences(alphabet, 5, "", [&](std::string const& s) { emit(kind + " u1 2 - | " + s); });
        }
    }
}

std::string crash_key(std::string const& c)
{
    return words(c)[0];
}

// Shape of the i-th item
static auto nth_shape(std::size_t i, std::size_t rank) -> Shape
{
    static std::size_t const sizes[] = {2, 3, 1, 4, 2, 5, 1, 3};
    Shape r;
    for (std::size_t d = 0; d < rank; ++d)
    {
        r.push_back(sizes[(i * 3 + d * 2 + d * d) % 8]);
    }
    return r;
}

// Names of items: object ids are not consecutive
static auto nth_id(std::size_t i) -> ldm::ID
{
    static std::size_t const ids[] = {7, 3, 1234567890123ULL, 0, 10, 1, 100, 99};
    return i < 8 ? ids[i] : 1000 + i;
}

template<typename T>
struct Run
{
    struct Item
    {
        Shape shape;             // shape of the dataset containing the item
        std::vector<T> cells;
        std::vector<bool> known;
        explicit Item(Shape s, T fill, bool nd): shape{std::move(s)}, cells(size_of(shape), fill), known(size_of(shape), nd) {}
    };

    Rec& rec;
    std::string kind, c, path;
    std::size_t rank;
    bool nodata;
    T fill;
    Source<T> next;
    // Location in time (0 for kinds without one) -> id (0 for ssvs) -> item
    std::vector<std::pair<ldm::Index, std::vector<std::pair<ldm::ID, Item>>>> model;
    std::size_t nr_items{0};
    std::unique_ptr<ldm::Dataset> ds;
    std::vector<std::unique_ptr<ldm::Dataset>> more;

    ldm::Properties* props{nullptr};

    auto ssvs() -> ldm::same_shape::variable_shape::Value& { return props->collection<ldm::same_shape::variable_shape::Properties>()["x"].value(); }
    auto dsv() -> ldm::different_shape::Value& { return props->collection<ldm::different_shape::Properties>()["x"].value(); }
    auto dscs() -> ldm::different_shape::constant_shape::Value& { return props->collection<ldm::different_shape::constant_shape::Properties>()["x"].value(); }
    auto dsvs() -> ldm::different_shape::variable_shape::Value& { return props->collection<ldm::different_shape::variable_shape::Properties>()["x"].value(); }

    void find(ldm::Dataset& d)
    {
        props = &d.phenomena()["p"].property_sets()["s"].properties();
    }
    void create()
    {
        lh5::Datatype const dt{lh5::native_datatype<T>()};
        ds = std::make_unique<ldm::Dataset>(ldm::create_dataset(path));
        auto& p = ds->add_phenomenon("p").property_sets().add("s").properties();
        if (kind == "ssvs") p.add<ldm::same_shape::variable_shape::Property>("x", dt, static_cast<ldm::Rank>(rank));
        if (kind == "ds") p.add("x", dt, static_cast<ldm::Rank>(rank));
        if (kind == "dscs") p.add<ldm::different_shape::constant_shape::Property>("x", dt, static_cast<ldm::Rank>(rank));
        if (kind == "dsvs") p.add<ldm::different_shape::variable_shape::Property>("x", dt, static_cast<ldm::Rank>(rank));
        find(*ds);
        if (kind != "ssvs")
        {
            model.resize(kind == "dsvs" ? 0 : 1);
        }
    }
    void reopen()
    {
        props = nullptr;
        more.clear();
        ds.reset();
        ds = std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR);
        find(*ds);
    }

    // The array in which the item is stored
    template<typename F>
    void with_array(ldm::Index t, ldm::ID id, F&& f)
    {
        if (kind == "ssvs") { auto v = ssvs()[t]; f(v); }
        if (kind == "ds") { auto v = dsv()[id]; f(v); }
        if (kind == "dscs") { auto v = dscs()[id]; f(v); }
        if (kind == "dsvs") { auto v = dsvs()[t][id]; f(v); }
    }

    void compare(std::string const& op)
    {
        auto key = kind + " after " + op;
        std::size_t count = 0;
        if (kind == "ssvs") rec.expect_eq(key + ": nr_locations_in_time", ssvs().nr_locations_in_time(), model.size(), c);
        if (kind == "ds") rec.expect_eq(key + ": nr_objects", dsv().nr_objects(), model[0].second.size(), c);
        if (kind == "dscs") rec.expect_eq(key + ": nr_objects", dscs().nr_objects(), model[0].second.size(), c);
        if (kind == "dsvs") rec.expect_eq(key + ": nr_locations_in_time", dsvs().nr_locations_in_time(), model.size(), c);
        for (auto& [t, items] : model)
        {
            if (kind == "dsvs")
            {
                rec.expect_eq(key + ": nr_objects at a location in time", dsvs()[t].nr_objects(), items.size(), c);
                rec.expect_eq(key + ": contains", dsvs()[t].contains(424242), false, c);
            }
            if (kind == "ds") rec.expect_eq(key + ": contains", dsv().contains(424242), false, c);
            if (kind == "dscs") rec.expect_eq(key + ": exists", dscs().exists(424242), false, c);
            for (auto& [id, item] : items)
            {
                if (kind == "ds") rec.expect_eq(key + ": contains", dsv().contains(id), true, c);
                if (kind == "dscs") rec.expect_eq(key + ": exists", dscs().exists(id), true, c);
                if (kind == "dsvs") rec.expect_eq(key + ": contains", dsvs()[t].contains(id), true, c);
                with_array(t, id, [&](auto& v) {
                    ldm::Array& a = v;
                    rec.expect_eq(key + ": rank", v.shape().size(), item.shape.size(), c);
                    rec.expect(key + ": shape", v.shape() == item.shape, c + ": " + show_shape(v.shape()) + " instead of " + show_shape(item.shape));
                    rec.expect(key + ": type", v.memory_datatype() == lh5::native_datatype<T>(), c);
                    if (!(v.shape() == item.shape))
                    {
                        return;
                    }
                    auto check = [&](std::string const& how, std::size_t b, std::size_t e, auto&& read) {
                        T const junk = static_cast<T>(111);
                        std::vector<T> got(e - b + 1, junk);
                        std::string why;
                        bool const all_known = std::all_of(item.known.begin() + b, item.known.begin() + e, [](bool x) { return x; });
                        if (!succeeds([&]() { read(got.data()); }, &why))
                        {
                            rec.expect(key + ": " + how, !all_known, c + ": cannot be read: " + why);
                            return;
                        }
                        rec.expect(key + ": " + how + " reads too much", got.back() == junk, c);
                        got.pop_back();
                        std::vector<T> want(item.cells.begin() + b, item.cells.begin() + e);
                        for (std::size_t i = 0; i < want.size(); ++i)
                        {
                            if (!item.known[b + i])
                            {
                                got[i] = want[i] = T{};
                            }
                        }
                        rec.expect(key + ": " + how, got == want, c + ": t" + std::to_string(t) + " id " + std::to_string(id) + ": " + show_values(got) + ", expected " + show_values(want));
                    };
                    if (item.cells.empty())
                    {
                        return;
                    }
                    check("read", 0, item.cells.size(), [&](T* b) { a.read(b); });
                    if (kind == "ssvs" || kind == "dscs")
                    {
                        auto const n = item.shape[0];
                        auto const k = item.cells.size() / n;
                        if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, ldm::Array>)
                        {
                            Shape as{item.shape.begin() + 1, item.shape.end()};
                            rec.expect(key + ": array_shape", v.array_shape() == as, c);
                            rec.expect_eq(key + ": nr_arrays", v.nr_arrays(), n, c);
                            for (std::size_t i = 0; i < n; ++i)
                            {
                                check("read one", i * k, (i + 1) * k, [&](T* b) { v.read(ldm::Index{i}, b); });
                                check("read range", i * k, n * k, [&](T* b) { v.read(ldm::IndexRange{i, n}, b); });
                            }
                        }
                    }
                });
                ++count;
            }
        }
        rec.count("items compared", count);
    }

    void add(std::size_t how_many, bool flat)
    {
        if (kind == "ssvs")
        {
            // Locations in time need not be added in order
            static ldm::Index const order[] = {0, 1, 5, 2, 3, 7, 4, 6};
            auto const t = order[model.size() % 8] + 8 * (model.size() / 8);
            auto const s = nth_shape(model.size(), rank);
            std::size_t const n = 1 + (model.size() % 3);
            auto v = ssvs().expand(t, n, s);
            Shape full{s};
            full.insert(full.begin(), n);
            rec.expect_eq(kind + ": expand returns", v.nr_arrays(), n, c);
            model.push_back({t, {{0, Item{full, fill, false}}}});
            return;
        }
        std::vector<ldm::ID> ids;
        std::vector<Shape> shapes;
        std::vector<hsize_t> sizes;
        std::vector<ldm::Count> counts;
        for (std::size_t i = 0; i < how_many; ++i)
        {
            ids.push_back(nth_id(nr_items % 8) + 1000000 * (nr_items / 8));
            shapes.push_back(nth_shape(nr_items, rank));
            sizes.insert(sizes.end(), shapes.back().begin(), shapes.back().end());
            counts.push_back(1 + nr_items % 3);
            ++nr_items;
        }
        auto note = [&](auto& items) {
            for (std::size_t i = 0; i < how_many; ++i)
            {
                Shape s{shapes[i]};
                if (kind == "dscs")
                {
                    s.insert(s.begin(), counts[i]);
                }
                items.push_back({ids[i], Item{s, fill, nodata}});
            }
        };
        if (kind == "ds")
        {
            if (flat) dsv().expand(how_many, ids.data(), sizes.data());
            else if (how_many == 1) dsv().expand(ids[0], shapes[0], nodata ? &fill : nullptr);
            else
            {
                if (nodata)
                {
                    for (std::size_t i = 0; i < how_many; ++i) dsv().expand(ids[i], shapes[i], &fill);
                }
                else dsv().expand(how_many, ids.data(), shapes.data());
            }
            note(model[0].second);
        }
        if (kind == "dscs")
        {
            if (how_many == 1)
            {
                auto v = dscs().expand(ids[0], shapes[0], counts[0]);
                rec.expect_eq(kind + ": expand returns", v.nr_arrays(), counts[0], c);
            }
            else dscs().expand(how_many, ids.data(), shapes.data(), counts.data());
            note(model[0].second);
        }
        if (kind == "dsvs")
        {
            static ldm::Index const order[] = {0, 2, 1, 3, 9, 4, 5, 6};
            auto const t = order[model.size() % 8] + 10 * (model.size() / 8);
            auto v = dsvs().expand(t, how_many, ids.data(), shapes.data());
            rec.expect_eq(kind + ": expand returns", v.nr_objects(), how_many, c);
            model.push_back({t, {}});
            note(model.back().second);
        }
    }

    auto last() -> std::pair<ldm::Index, std::pair<ldm::ID, Item>*>
    {
        if (model.empty() || model.back().second.empty())
        {
            return {0, nullptr};
        }
        return {model.back().first, &model.back().second.back()};
    }
    auto first() -> std::pair<ldm::Index, std::pair<ldm::ID, Item>*>
    {
        if (model.empty() || model.front().second.empty())
        {
            return {0, nullptr};
        }
        return {model.front().first, &model.front().second.front()};
    }

    void all(std::string const& spec)
    {
        create();
        compare("create");
        for (auto const& op : words(spec))
        {
            auto [t, p] = op == "w0" ? first() : last();
            if (op == "+") add(1, false);
            else if (op == "++") add(2, false);
            else if (op == "+f") add(2, true);
            else if (op == "R") reopen();
            else if (op == "H")
            {
                more.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
                find(*more.back());
            }
            else if (p == nullptr)
            {
            }
            else if (op == "w0" || op == "wL")
            {
                auto& item = p->second;
                item.cells = next.many(item.cells.size());
                item.known.assign(item.cells.size(), true);
                with_array(t, p->first, [&](auto& v) { static_cast<ldm::Array&>(v).write(item.cells.data()); });
            }
            else if (op == "wi")
            {
                // One array of the item
                auto& item = p->second;
                with_array(t, p->first, [&](auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, ldm::Array>)
                    {
                        auto const n = item.shape[0];
                        auto const k = item.cells.size() / n;
                        auto x = next.many(k);
                        std::copy(x.begin(), x.end(), item.cells.begin() + (n - 1) * k);
                        std::fill(item.known.begin() + (n - 1) * k, item.known.end(), true);
                        v.write(ldm::Index{n - 1}, x.data());
                    }
                    else
                    {
                        // First row of an array, by means of a hyperslab
                        lh5::Offset offset(item.shape.size(), 0);
                        lh5::Count count(item.shape.begin(), item.shape.end());
                        count[0] = 1;
                        auto x = next.many(item.cells.size() / item.shape[0]);
                        std::copy(x.begin(), x.end(), item.cells.begin());
                        std::fill(item.known.begin(), item.known.begin() + x.size(), true);
                        static_cast<ldm::Array&>(v).write(lh5::Hyperslab{offset, count}, x.data());
                    }
                });
            }
            else if (op == "x")
            {
                // More locations in time
                auto& item = p->second;
                auto v = dscs()[p->first];
                v.expand(2);
                auto const k = item.cells.size() / item.shape[0];
                item.shape[0] += 2;
                item.cells.resize(item.cells.size() + 2 * k, fill);
                item.known.resize(item.cells.size(), false);
            }
            else if (op == "!")
            {
                bool ok = false;
                auto const s = nth_shape(0, rank);
                ldm::ID const id = 5;
                if (kind == "ssvs") ok = succeeds([&]() { ssvs().expand(t, 2, s); });
                if (kind == "dscs") ok = succeeds([&]() { dscs().expand(p->first, s, 2); });
                if (kind == "dsvs") ok = succeeds([&]() { dsvs().expand(t, 1, &id, &s); });
                rec.expect(kind + ": adding an existing item succeeds", !ok, c);
            }
            rec.trans();
            compare(op);
            std::string s = kind;
            for (auto const& [tt, items] : model)
            {
                s += "/" + std::to_string(tt);
                for (auto const& [id, item] : items)
                {
                    s += "," + show_shape(item.shape);
                    for (bool k : item.known) s += k ? 'x' : '.';
                }
            }
            rec.state(s);
        }
        reopen();
        compare("the last reopening");
        rec.outcome(kind + std::to_string(model.size()) + spec.substr(0, 2));
        rec.trace();
        more.clear();
        ds.reset();
        std::filesystem::remove(path);
    }
};

void run(std::string const& c, Rec& rec)
{
    auto const bar = c.find(" | ");
    auto const head = words(c.substr(0, bar));
    auto const spec = c.substr(bar + 3);
    with_type(head[1], [&](auto t) {
        using T = decltype(t);
        bool const nd = head[3] == "nd";
        Run<T> r{rec, head[0], c, rec.scratch + "/f.lue", std::stoul(head[2]), nd, nd ? static_cast<T>(99) : T{}};
        r.all(spec);
    });
}

MC_MAIN
