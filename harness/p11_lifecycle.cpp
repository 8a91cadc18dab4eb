// P11: handles to HDF5 objects are shared by copies and released with the last of them
#define MC_BATCH 400
#include "values.hpp"
#include "lue/data_model/hl.hpp"
#include "lue/validate.hpp"
#include <any>
#include <memory>
#include <optional>

using namespace mc;

// case: i op op ..   identifiers in three slots, of two objects
//           o<k><a>  open object a and move it into slot k      c<k><l>  k = l         m<k><l>  k = move(l)
//           C<k><l>  k is made again, as a copy of l            M<k><l>  same, by moving from l     d<k>  k = nothing
//       d <kind> op op ..   the same with objects of a class: g group, d dataset, f file, a attribute, t datatype, s dataspace
//       w op op ..   work on a LUE dataset (see Work), then let go of everything

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    std::vector<std::string> ops;
    for (std::string k : {"0", "1", "2"})
    {
        ops.push_back("o" + k + (k == "1" ? "B" : "A"));
        ops.push_back("d" + k);
        for (std::string l : {"0", "1", "2"})
        {
            ops.push_back("c" + k + l);
            if (k != l)
            {
                for (std::string f : {"m", "C", "M"}) ops.push_back(f + k + l);
            }
        }
    }
    for (int depth = 1; depth <= (deep ? 4 : 3); ++depth)
    {
        sequences(ops, depth, "i", emit);
    }
    std::vector<std::string> few{"o0A", "o1B", "c01", "c10", "m01", "m10", "M20", "C20", "m02", "d0", "d1"};
    sequences(few, deep ? 5 : 4, "i", emit);
    for (std::string k : {"g", "d", "f", "a", "t", "s"})
    {
        for (int depth = 1; depth <= (deep ? 5 : 4); ++depth)
        {
            sequences({"c01", "c10", "m01", "m10", "C20", "M21", "m02"}, depth, "d " + k, emit);
        }
    }
    std::vector<std::string> work;
    for (int i = 0; i < 53; ++i)
    {
        work.push_back(std::to_string(i));
    }
    for (int depth = 1; depth <= (deep ? 3 : 2); ++depth)
    {
        sequences(work, depth, "w", emit);
    }
}

std::string crash_key(std::string const& c)
{
    return words(c)[0];
}

using lh5::Identifier;

// The ids which are open, of all types which are of interest
struct Probe
{
    std::array<hid_t, 8> start;
    static auto latest() -> std::array<hid_t, 8>
    {
        std::array<hid_t, 8> r{};
        hid_t s = H5Screate(H5S_SCALAR), t = H5Tcopy(H5T_NATIVE_INT), p = H5Pcreate(H5P_DATASET_CREATE);
        r[0] = s, r[1] = t, r[2] = p;
        H5Sclose(s), H5Tclose(t), H5Pclose(p);
        return r;
    }
    Probe(): start{latest()} {}
    auto open() const -> std::string
    {
        auto const now = latest();
        static char const* names[] = {"dataspaces", "datatypes", "property lists"};
        std::string r;
        for (int k = 0; k < 3; ++k)
        {
            int n = 0;
            for (hid_t i = start[k]; i < now[k]; ++i)
            {
                n += H5Iis_valid(i) > 0;
            }
            if (n > 0)
            {
                r += std::string(r.empty() ? "" : ", ") + names[k];
            }
        }
        static std::pair<unsigned, char const*> const kinds[] = {{H5F_OBJ_FILE, "files"}, {H5F_OBJ_DATASET, "datasets"},
            {H5F_OBJ_GROUP, "groups"}, {H5F_OBJ_ATTR, "attributes"}};
        for (auto const& [k, name] : kinds)
        {
            if (H5Fget_obj_count(H5F_OBJ_ALL, k) > 0)
            {
                r += std::string(r.empty() ? "" : ", ") + name;
            }
        }
        return r;
    }
};

static void memory_file(Rec& rec, std::unique_ptr<lh5::File>& f)
{
    lh5::File::AccessPropertyList l{};
    l.use_core_driver(65536, false);
    f = std::make_unique<lh5::File>(lh5::create_file(rec.scratch + "/m.h5", l));
}

static void identifiers(Rec& rec, std::string const& c)
{
    Probe const probe;
    std::unique_ptr<lh5::File> file;
    memory_file(rec, file);
    hid_t const f = file->id();
    H5Gclose(H5Gcreate(f, "A", 0, 0, 0)), H5Gclose(H5Gcreate(f, "B", 0, 0, 0));
    {
        std::array<std::unique_ptr<Identifier>, 3> s;
        for (auto& x : s) x = std::make_unique<Identifier>();
        // Model: what the slots identify. Every opening is a handle of its own.
        std::array<hid_t, 3> m{-1, -1, -1};
        std::map<hid_t, char> opened;
        for (auto const& op : words(c.substr(2)))
        {
            int const k = op[1] - '0', l = op.size() > 2 ? op[2] - '0' : -1;
            if (op[0] == 'o')
            {
                hid_t const id = H5Gopen(f, op[2] == 'A' ? "A" : "B", H5P_DEFAULT);
                opened[id] = op[2];
                *s[k] = Identifier{id, H5Gclose};
                m[k] = id;
            }
            if (op[0] == 'c') *s[k] = *s[l], m[k] = m[l];
            if (op[0] == 'm') *s[k] = std::move(*s[l]), m[k] = m[l], m[l] = -1;
            if (op[0] == 'C') s[k] = std::make_unique<Identifier>(*s[l]), m[k] = m[l];
            if (op[0] == 'M') s[k] = std::make_unique<Identifier>(std::move(*s[l])), m[k] = m[l], m[l] = -1;
            if (op[0] == 'd') *s[k] = Identifier{}, m[k] = -1;
            rec.trans();
            std::string state;
            for (auto const& [id, name] : opened)
            {
                int const n = std::count(m.begin(), m.end(), id);
                rec.expect_eq("i: after " + op.substr(0, 1) + ": number of references", H5Iis_valid(id) > 0 ? H5Iget_ref(id) : 0, n, c);
                state += std::to_string(n) + name;
            }
            for (int i = 0; i < 3; ++i)
            {
                auto const key = "i: after " + op.substr(0, 1) + ": ";
                rec.expect_eq(key + "valid", s[i]->is_valid(), m[i] >= 0, c);
                if (m[i] >= 0 && s[i]->is_valid())
                {
                    rec.expect_eq(key + "id", static_cast<hid_t>(*s[i]), m[i], c);
                    rec.expect_eq(key + "reference_count", s[i]->reference_count(), static_cast<int>(std::count(m.begin(), m.end(), m[i])), c);
                    rec.expect(key + "name", s[i]->pathname() == std::string("/") + opened[m[i]] && s[i]->name() == std::string(1, opened[m[i]]), c);
                    rec.expect(key + "type", s[i]->type() == H5I_GROUP, c);
                    for (int j = 0; j < 3; ++j)
                    {
                        if (m[j] >= 0 && s[j]->is_valid())
                        {
                            rec.expect(key + "equality", (*s[i] == *s[j]) == (opened[m[i]] == opened[m[j]]) &&
                                (*s[i] != *s[j]) == (opened[m[i]] != opened[m[j]]), c);
                        }
                    }
                }
                else
                {
                    rec.expect(key + "reference_count of nothing", !succeeds([&]() { s[i]->reference_count(); }), c);
                }
                state += " " + std::to_string(m[i] >= 0 ? std::distance(opened.begin(), opened.find(m[i])) : -1);
            }
            rec.state(state);
            rec.outcome(op + state);
        }
    }
    file.reset();
    rec.expect_eq("i: left open", probe.open(), std::string{}, c);
    rec.trace();
}

template<typename O, typename F, typename R>
static void copies(Rec& rec, std::string const& c, std::vector<std::string> const& ops, F&& id_of, R&& usable, std::function<O(int)> const& make)
{
    std::array<std::optional<O>, 3> s{make(0), make(1), make(0)};
    std::array<hid_t, 3> m{id_of(*s[0]), id_of(*s[1]), id_of(*s[2])};
    std::set<hid_t> all(m.begin(), m.end());
    for (auto const& op : ops)
    {
        int const k = op[1] - '0', l = op[2] - '0';
        if (m[l] >= 0)
        {
            if (op[0] == 'c') *s[k] = *s[l], m[k] = m[l];
            if (op[0] == 'm') *s[k] = std::move(*s[l]), m[k] = m[l], m[l] = -1;
            if (op[0] == 'C') s[k].emplace(O{*s[l]}), m[k] = m[l];
            if (op[0] == 'M') s[k].emplace(O{std::move(*s[l])}), m[k] = m[l], m[l] = -1;
        }
        rec.trans();
        for (int i = 0; i < 3; ++i)
        {
            if (m[i] >= 0)
            {
                rec.expect_eq("d: after " + op.substr(0, 1) + ": id", id_of(*s[i]), m[i], c);
                rec.expect("d: after " + op.substr(0, 1) + ": usable", H5Iis_valid(m[i]) > 0 && usable(*s[i]), c);
            }
        }
        for (auto id : all)
        {
            if (std::count(m.begin(), m.end(), id) == 0)
            {
                rec.expect("d: after " + op.substr(0, 1) + ": still open", H5Iis_valid(id) <= 0, c);
            }
        }
        rec.outcome(op + std::to_string(m[0] == m[1]) + std::to_string(m[1] == m[2]) + std::to_string(m[0] >= 0) + std::to_string(m[1] >= 0));
    }
    rec.state(std::to_string(m[0] == m[1]) + std::to_string(m[1] == m[2]) + std::to_string(m[0] >= 0) + std::to_string(m[1] >= 0) + c.substr(0, 3));
}

static void objects(Rec& rec, std::string const& c)
{
    auto w = words(c);
    char const kind = w[1][0];
    std::vector<std::string> ops(w.begin() + 2, w.end());
    Probe const probe;
    {
        std::unique_ptr<lh5::File> file;
        file = std::make_unique<lh5::File>(lh5::create_file(rec.scratch + "/o.h5"));
        auto& f = *file;
        auto const dt = lh5::native_datatype<int>();
        auto id = [](auto const& o) -> hid_t { return o.id(); };
        for (std::string n : {"A", "B"})
        {
            lh5::create_group(f, n);
            lh5::create_dataset(f.id(), n + "d", lh5::file_datatype(dt), lh5::create_dataspace(Shape{2}), {});
            f.attributes().write<int>(n + "a", 5);
        }
        auto const name = [](int i) { return std::string(i == 0 ? "A" : "B"); };
        switch (kind)
        {
            case 'g':
                copies<lh5::Group>(rec, c, ops, id, [](auto& g) { return g.group_names().empty() && g.has_parent(); },
                    [&](int i) { return lh5::Group{f, name(i)}; });
                break;
            case 'd':
                copies<lh5::Dataset>(rec, c, ops, id, [](auto& d) { return d.shape() == Shape{2} && !d.attributes().exists("x"); },
                    [&](int i) { return lh5::Dataset{f, name(i) + "d"}; });
                break;
            case 'f':
                copies<lh5::File>(rec, c, ops, id, [](auto& x) { return x.group_names().size() == 2; },
                    [&](int) { return lh5::File{f.pathname(), H5F_ACC_RDWR}; });
                break;
            case 'a':
                copies<lh5::Attribute>(rec, c, ops, id, [](auto& a) { return a.template read<int>() == 5 && a.dataspace().nr_elements() == 1; },
                    [&](int i) { return f.attributes().attribute(name(i) + "a"); });
                break;
            case 't':
                copies<lh5::Datatype>(rec, c, ops, id, [](auto& t) { return t.is_string() && t.size() < 9; },
                    [&](int i) { return lh5::create_datatype(3 + i); });
                break;
            default:
                copies<lh5::Dataspace>(rec, c, ops, id, [](auto& t) { return t.nr_dimensions() == 2; },
                    [&](int i) { return lh5::create_dataspace(Shape{2, static_cast<hsize_t>(i)}); });
        }
    }
    rec.expect_eq(std::string("d: ") + kind + ": left open", probe.open(), std::string{}, c);
    rec.trace();
}

// ---- Work

struct Work
{
    std::string path;
    std::vector<std::any> bag;   // what is kept till the end
    std::shared_ptr<ldm::Dataset> ds;

    template<typename X>
    void keep(X x) { bag.emplace_back(std::make_shared<X>(std::move(x))); }

    auto set() -> ldm::PropertySet& { return ds->phenomena()["p"].property_sets()["s"]; }

    void create()
    {
        ds = std::make_shared<ldm::Dataset>(ldm::create_dataset(path, "text"));
        auto& p = ds->add_phenomenon("p", "text");
        auto& s = p.property_sets().add("s", ldm::TimeConfiguration{ldm::TimeDomainItemType::cell},
            ldm::Clock{ldm::time::Epoch{ldm::time::Epoch::Kind::common_era, "2020"}, ldm::time::Unit::day, 1},
            ldm::SpaceConfiguration{ldm::Mobility::mobile, ldm::SpaceDomainItemType::box}, lh5::Datatype{lh5::native_float64}, 2);
        auto& x = s.properties();
        lh5::Datatype const dt{lh5::native_int32};
        x.add<ldm::same_shape::Property>("a", dt, Shape{3});
        x.add<ldm::same_shape::constant_shape::Property>("b", dt, Shape{2});
        x.add<ldm::same_shape::variable_shape::Property>("c", dt, ldm::Rank{2});
        x.add("d", dt, ldm::Rank{2});
        x.add<ldm::different_shape::constant_shape::Property>("e", dt, ldm::Rank{2});
        x.add<ldm::different_shape::variable_shape::Property>("f", dt, ldm::Rank{2});
        ds->add_universe("u").add_phenomenon("q").collection_property_sets().add("t");
    }
    void open(unsigned flags) { ds = std::make_shared<ldm::Dataset>(path, flags); }

    // Groups containing groups, datasets and links, and names in there, and others
    auto groups() -> std::vector<lh5::Group>
    {
        return {set(), set().object_tracker(), set().time_domain(), ds->phenomena()["p"]};
    }
    auto names() -> std::vector<std::string>
    {
        std::vector<std::string> r{"missing", "lue_properties", "s"};
        for (auto const& g : groups()) for (auto const& n : g.object_names()) r.push_back(n);
        return r;
    }

    void act(int op)
    {
        auto& x = set().properties();
        std::vector<std::int32_t> buffer(100, 5);
        switch (op)
        {
            case 0: open(H5F_ACC_RDWR); break;
            case 1: keep(ds); open(H5F_ACC_RDWR); break;
            case 2: ds->add_phenomenon("n"); break;                          // fails the second time
            case 3: ds->add_phenomenon("p"); break;                          // fails
            case 4: ds->phenomena()["missing"]; break;                       // fails
            case 5: keep(ldm::Phenomenon{ds->phenomena()["p"]}); break;
            case 6: keep(ldm::PropertySet{set()}); break;
            case 7: keep(ldm::same_shape::Property{x.collection<ldm::same_shape::Properties>()["a"]}); break;
            case 8: { auto& v = x.collection<ldm::same_shape::Properties>()["a"].value(); v.expand(2); v.write(buffer.data()); v.read(0, buffer.data()); keep(v); } break;
            case 9: { auto& v = x.collection<ldm::same_shape::constant_shape::Properties>()["b"].value(); v.expand(2); v.write(buffer.data()); v.read(0, buffer.data()); } break;
            case 10: { auto& v = x.collection<ldm::same_shape::variable_shape::Properties>()["c"].value(); v.expand(v.nr_locations_in_time(), 2, Shape{2, 2}); auto a = v[0]; a.write(buffer.data()); keep(a); } break;
            case 11: { auto& v = x.collection<ldm::different_shape::Properties>()["d"].value(); v.expand(v.nr_objects(), Shape{2, 3}); auto a = v[0]; a.write(buffer.data()); } break;
            case 12: { auto& v = x.collection<ldm::different_shape::constant_shape::Properties>()["e"].value(); v.expand(77, Shape{2, 3}, 2); v.expand(77, Shape{2, 3}, 2); } break;   // fails
            case 13: { auto& v = x.collection<ldm::different_shape::constant_shape::Properties>()["e"].value(); v.expand(v.nr_objects(), Shape{2, 2}, 3); auto a = v[0]; a.read(0, buffer.data()); } break;   // may fail
            case 14: { auto& v = x.collection<ldm::different_shape::variable_shape::Properties>()["f"].value(); ldm::ID const ids[]{3, 7}; Shape const shapes[]{{2, 2}, {1, 3}}; auto o = v.expand(v.nr_locations_in_time(), 2, ids, shapes); keep(o); } break;
            case 15: keep(x.collection<ldm::different_shape::Properties>()["d"].value()); break;
            case 16: { auto v = set().time_domain().value<ldm::TimeCell>(); v.expand(2); std::uint64_t b[4]{0, 1, 2, 3}; v.write(b); v.count().expand(2); } break;
            case 17: keep(set().time_domain().value<ldm::TimeCell>()); break;
            case 18: { auto const& c = set().time_domain().clock(); keep(ldm::Clock{c}); keep(ldm::TimeDomain{set().time_domain()}); } break;
            case 19: { auto v = set().space_domain().value<ldm::MobileSpaceBox>(); v.expand(2); std::vector<double> b(8, 1); v.write(b.data()); } break;
            case 20: keep(ldm::SpaceDomain{set().space_domain()}); break;
            case 21: { auto& t = set().object_tracker(); t.active_object_id().expand(2); t.active_set_index().expand(1); t.active_object_index().expand(2); } break;
            case 22: keep(ldm::ObjectTracker{set().object_tracker()}); break;
            case 23: ds->phenomena()["p"].object_id().expand(2); break;
            case 24: { auto& a = x.collection<ldm::same_shape::Properties>()["a"]; auto& b = x.collection<ldm::same_shape::constant_shape::Properties>()["b"];
                       a.set_space_discretization(ldm::SpaceDiscretization::regular_grid, b); keep(a.space_discretization_property()); } break;   // fails the second time
            case 25: { auto& a = x.collection<ldm::same_shape::Properties>()["a"]; if (a.space_is_discretized()) keep(a.space_discretization_property()); } break;
            case 26: { lh5::Issues issues; ldm::validate(*ds, issues); keep(issues); } break;
            case 27: ldm::assert_is_valid(*ds); break;
            case 28: ldm::assert_is_valid(path); break;
            case 29: ds->attributes().write<int>("one", 1); keep(ds->attributes().attribute("one")); ds->attributes().read<int>("one"); break;
            case 30: ds->description(); ds->lue_version(); ds->phenomena()["p"].description(); keep(ds->phenomena()["p"].parent()); break;
            case 31: ldm::Dataset{path + ".missing"}; break;                 // fails
            case 32: { auto p = path + ".h5"; lh5::create_file(p); ldm::Dataset{p, H5F_ACC_RDWR}; } break;   // fails
            case 33: ldm::constant::create_raster_view(ds, "r", "area", Shape{3, 4}, {0.0, 0.0, 4.0, 3.0}).add_layer<float>("z"); break;   // fails the second time
            case 34: keep(ldm::constant::open_raster_view(ds, "r", "area")); break;   // fails if there is none
            case 35: ldm::constant::contains_raster(*ds, "p", "s"); ldm::variable::contains_raster(*ds, "p", "s"); break;
            case 36: { auto v = ldm::variable::create_raster_view(ds, "rv", "area", ldm::Clock{ldm::time::Unit::day, 1}, 3, {0, 3}, Shape{3, 4}, {0.0, 0.0, 4.0, 3.0}); v.add_layer<float>("z"); keep(v); } break;
            case 37: { auto [id, shape, dt] = ldm::constant::probe_raster(path, "r", "area", "z"); keep(dt); } break;   // fails if there is none
            case 38: { auto r = std::make_shared<ldm::Dataset>(path + ".2", H5F_ACC_RDONLY); keep(r); } break;   // fails
            case 39: { auto g = ds->phenomena()["p"].parent(); keep(g.parent()); } break;
            case 40: { auto n = ds->universes()["u"].phenomena()["q"].collection_property_sets().names(); keep(ds->universes()["u"]); } break;
            case 41: { ldm::same_shape::constant_shape::Property const p{x.collection<ldm::same_shape::constant_shape::Properties>()["b"]}; keep(p.value().memory_datatype()); keep(p.value().file_datatype()); } break;
            case 42: { x.collection<ldm::same_shape::Properties>()["a"].value().array_shape(); x.add<ldm::same_shape::Property>("a", lh5::Datatype{lh5::native_int32}); } break;   // fails
            case 43: { auto s = ds->phenomena()["p"].property_sets().add("s2", set().time_domain(), set().object_tracker()); keep(s); } break;   // fails the second time
            // Questions, and requests which fail, about groups, datasets, links and names which are not there
            case 44: { for (auto const& g : groups()) for (auto const& n : names()) { g.contains_group(n), g.contains_dataset(n), lh5::group_exists(g, n), lh5::dataset_exists(g.id(), n); } } break;
            case 45: { for (auto const& g : groups()) for (auto const& n : names()) { g.contains_soft_link(n), g.contains_hard_link(n); } } break;
            case 46: { for (auto& g : groups()) for (auto const& n : names()) { if (g.contains_group(n) || g.contains_dataset(n)) { succeeds([&]() { lh5::create_group(g, n); });
                       succeeds([&]() { lh5::create_dataset(g.id(), n, lh5::file_datatype(lh5::Datatype{lh5::native_int32}), lh5::create_dataspace(Shape{2}), {}); }); } } } break;
            case 47: { for (auto& g : groups()) for (auto const& n : names()) { succeeds([&]() { lh5::Group{g, n}; }); succeeds([&]() { lh5::Dataset{g, n}; }); succeeds([&]() { lh5::open_dataset(g.id(), n, {}); }); } } break;
            case 48: { for (auto& g : groups()) { g.object_names(), g.group_names(), g.parent().parent_pathname(), g.id().info(); g.id().file_id(); succeeds([&]() { g.create_soft_link(g.id(), "here"); });
                       succeeds([&]() { g.create_hard_link(g.id(), "hard"); }); g.soft_link("here").path(); g.hard_link("hard"); } keep(groups()); } break;
            case 49: { auto a = set().object_tracker().attributes(); for (int i = 1; i < 4; ++i) { a.write<std::string>("t", std::string(i, 't')); a.write("v", std::vector<int>(i)); a.write<double>("t", 3); succeeds([&]() { a.read<int>("missing"); });
                       a.datatype("t"), a.exists("u"); succeeds([&]() { a.add("t", lh5::Datatype{lh5::native_int32}, lh5::create_dataspace(Shape{2})); }); } } break;
            case 50: { lh5::Dataset d{x.collection<ldm::same_shape::Properties>()["a"].value()}; d.resize(Shape{4, 3}); lh5::Datatype const dt{lh5::native_int32}; std::int32_t const fill{7}; d.fill(dt, lh5::Hyperslab{Shape{4, 3}}, &fill);
                       succeeds([&]() { d.read(dt, lh5::Hyperslab{Shape{9, 3}}, buffer.data()); }); succeeds([&]() { d.write(dt, lh5::Hyperslab{Shape{9, 3}}, buffer.data()); }); succeeds([&]() { d.write(dt, lh5::create_dataspace(Shape{5}), buffer.data()); });
                       d.shape(), d.datatype(), d.dataspace(), d.creation_property_list().fill_value_defined(); x.collection<ldm::same_shape::Properties>()["a"].value().has_no_data_value(); } break;
            case 51: { lh5::File f{path, H5F_ACC_RDWR}; f.flush(), f.intent(), f.hdf5_version(), f.object_count(H5F_OBJ_ALL), lh5::file_exists(path), lh5::file_exists(path + ".missing"); lh5::create_in_memory_file(path + ".m"); f == f; } break;
            case 52: { auto const dt = x.collection<ldm::same_shape::Properties>()["a"].value().file_datatype(); lh5::standard_datatype_as_string(dt); auto const b = lh5::encode_datatype(dt); keep(lh5::decode_datatype(b)); lh5::memory_datatype(dt), lh5::is_std_signed_integral_le(dt);
                       lh5::create_string_datatype(), lh5::create_datatype(7); lh5::native_datatype_as_string(lh5::memory_datatype(dt)); } break;
        }
    }
};

static void work(Rec& rec, std::string const& c)
{
    auto const path = rec.scratch + "/w.lue";
    lh5::native_datatype<std::string>(), lh5::std_datatype<std::string>();
    Probe const probe;
    std::string done;
    std::string last;
    {
        Work w{path};
        w.create();
        // Each twice: once in another way
        for (auto const& op : words(c.substr(2)))
        {
            for (int i = 0; i < 2; ++i)
            {
                std::string what;
                bool const ok = succeeds([&]() { w.act(std::stoi(op)); }, &what);
                done += ok ? "+" : "-";
                if (std::getenv("VERIF_DEBUG"))
                {
                    std::fprintf(stderr, "%s: %s\n", op.c_str(), ok ? "ok" : what.c_str());
                }
                rec.trans();
            }
            last = op;
        }
        rec.state(c + done);
        rec.outcome(done + last);
    }
    auto const open = probe.open();
    rec.expect_eq("w: left open: " + open, open, std::string{}, c + " " + done);
    // Nobody uses the file anymore
    rec.expect("w: file is still in use", succeeds([&]() { ldm::create_dataset(path); }), c + " " + done);
    std::error_code ec;
    for (std::string s : {"", ".h5", ".2", ".missing"}) std::filesystem::remove(path + s, ec);
    rec.trace();
}

void run(std::string const& c, Rec& rec)
{
    if (c[0] == 'i') identifiers(rec, c);
    else if (c[0] == 'd') objects(rec, c);
    else work(rec, c);
}

MC_MAIN
