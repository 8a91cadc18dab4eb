// P17: raster views and array path names
#include "values.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include "lue/data_model/hl/util.hpp"
#include "lue/validate.hpp"

using namespace mc;
namespace lcr = ldm::constant;
namespace lvr = ldm::variable;

// case: h | op op ..
//   c<k>  create constant view at place k      v<k>  variable view     n<k>  property-set which is not a raster
//   o<m>  phenomenon m with an object of its own
//   a<k><n> add layer n with a newly opened view      b<k><n>  with the view that was opened first
//   w<k><n> write layer     d<k><n>  property which is not a layer    R reopen
//   e<k><n> property discretized by the grid of another raster         f<k><n>  by another property of the set
//       q <i>         almost a raster      t <type> <rows> <cols> <steps>
//       p <tokens>    array path names

static std::vector<std::pair<std::string, std::string>> const places{{"p", "s"}, {"p", "r"}, {"q", "s"}};
static std::vector<Shape> const shapes{{2, 3}, {1, 1}, {3, 1}};
static std::map<char, std::string> const names{{'a', "a"}, {'b', "b"}, {'g', "space_grid_shape"}, {'t', "time_grid_shape"}};
static int const nr_almost = 42;

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    for (int i = 0; i < nr_almost; ++i) emit("q " + std::to_string(i));
    for (auto const& t : all_types)
        for (auto const& [r, c, n] : std::vector<std::array<int, 3>>{{1, 1, 1}, {1, 3, 2}, {3, 1, 1}, {2, 3, 4}, {4, 2, 3}, {5, 5, 1}, {40, 30, 2}})
            emit("t " + t + " " + std::to_string(r) + " " + std::to_string(c) + " " + std::to_string(n));
    std::vector<std::string> ops{"o0", "o1", "c0", "v0", "c1", "v1", "c2", "v2", "n1", "a0a", "a0b", "a1a", "a2a", "b0a", "b0b", "a0g", "a0t", "d0a", "e0b", "f0a", "w0a", "w1a", "w0b", "R"};
    for (int depth = 1; depth <= 2; ++depth) sequences(ops, depth, "h |", emit);
    sequences(deep ? ops : std::vector<std::string>{"o0", "c0", "v0", "c1", "v2", "n1", "a0a", "b0b", "a0g", "w0a", "R"}, 3, "h |", emit);
    for (std::string first : {"c0", "v0", "o0 c0", "o0 v0", "c0 v2", "v0 c2", "v0 c1", "c0 v1"})
    {
        sequences({"a0a", "b0a", "b0b", "d0b", "e0a", "f0b", "w0a", "w0b", "a1a", "R"}, 3, "h | " + first, emit);
        if (deep) sequences({"a0a", "b0b", "w0a", "a2a", "w1a", "R"}, 6, "h | " + first, emit);
    }
    for (std::string first : {"c0", "v0"}) sequences({"a0a", "b0b", "w0a", "R"}, 4, "h | " + first, emit);
    if (deep) sequences(ops, 4, "h |", emit);
    // Path names
    std::vector<std::string> tokens{"", "a", "b.lue", "..", ".", " "};
    for (int depth = 1; depth <= (deep ? 7 : 5); ++depth) sequences(tokens, depth, "p ", [&](std::string const& s) { emit("p " + s.substr(3)); }, '/');
}

std::string crash_key(std::string const& c)
{
    auto const w = words(c);
    return c[0] == 'h' ? "h " + w.back() : c[0] == 'q' ? c : w[0];
}

using SpaceBox = std::array<double, 4>;
using TimeBox = std::array<std::uint64_t, 2>;
using Ptr = std::shared_ptr<ldm::Dataset>;

struct Layer
{
    int type{0};             // 0: float64, 1: int32, 2: uint8
    bool no_data{false}, written{false};
    std::vector<double> values;
};

struct Place
{
    char kind;
    std::map<std::string, Layer> layers{};
    std::set<std::string> other{};      // Properties which are not layers
    std::set<std::string> known{};      // Layers known by the view that was opened first
    SpaceBox box;
    TimeBox time;
    std::uint64_t steps;
    std::unique_ptr<lcr::RasterView<Ptr>> c{};
    std::unique_ptr<lvr::RasterView<ldm::Dataset*>> v{};
};

static auto sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

static auto datatype(int type) -> lh5::Datatype
{
    return type == 0 ? lh5::Datatype{lh5::native_float64} : type == 1 ? lh5::Datatype{lh5::native_int32} : lh5::Datatype{lh5::native_uint8};
}

template<typename F>
static void as_type(int type, F&& f)
{
    if (type == 0) f(double{});
    else if (type == 1) f(std::int32_t{});
    else f(std::uint8_t{});
}

struct History
{
    Rec& rec;
    std::string c, path;
    Ptr ds;
    std::map<std::string, std::uint64_t> ids{};   // Phenomena
    std::map<int, Place> m{};
    int n{0};

    ~History()
    {
        m.clear();
        ds.reset();
        std::filesystem::remove(path);
    }

    auto clock() { return ldm::Clock{ldm::time::Unit::day, 2}; }

    auto cells(int k) { return size_of(shapes[k]) * (m.at(k).kind == 'v' ? m.at(k).steps : 1); }

    template<typename View>
    void look(int k, View&& view, std::set<std::string> const& layers, std::string const& key)
    {
        auto const& p = m.at(k);
        rec.expect(key + "names of view", view.phenomenon_name() == places[k].first && view.property_set_name() == places[k].second, c);
        rec.expect_eq(key + "object_id", view.object_id(), ids[places[k].first], c);
        rec.expect(key + "space_box", view.space_box() == p.box, c);
        rec.expect_eq(key + "grid_shape", view.grid_shape(), shapes[k], c);
        rec.expect_eq(key + "nr_layers", view.nr_layers(), layers.size(), c);
        rec.expect_eq(key + "layer_names", sorted(view.layer_names()), std::vector<std::string>(layers.begin(), layers.end()), c);
        for (auto const& [_, name] : names)
        {
            rec.expect_eq(key + "contains", view.contains(name), layers.contains(name), c + " " + name);
            if (!layers.contains(name))
            {
                rec.expect(key + "layer that does not exist", !succeeds([&]() { view.layer(name); }), c + " " + name);
            }
            else
            {
                check_layer(k, view.layer(name), p.layers.at(name), key);
            }
        }
        if constexpr (requires { view.time_box(); })
        {
            rec.expect(key + "time_box", view.time_box() == p.time, c);
            rec.expect_eq(key + "nr_time_steps", view.nr_time_steps(), p.steps, c);
        }
    }

    template<typename L>
    void check_layer(int k, L&& layer, Layer const& want, std::string const& key)
    {
        rec.expect(key + "file_datatype", layer.file_datatype() == lh5::file_datatype(datatype(want.type)), c);
        rec.expect(key + "memory_datatype", layer.memory_datatype() == datatype(want.type), c);
        if (m.at(k).kind == 'c')
        {
            rec.expect_eq(key + "shape of layer", layer.shape(), shapes[k], c);
        }
        else if constexpr (requires { layer.array_shape(); })
        {
            Shape const s{m.at(k).steps, shapes[k][0], shapes[k][1]};
            rec.expect_eq(key + "shape of layer", layer.array_shape(), s, c);
            rec.expect_eq(key + "number of arrays", layer.nr_arrays(), static_cast<std::size_t>(1), c);
        }
        if (want.written || want.no_data)
        {
            as_type(want.type, [&]<typename T>(T) {
                std::vector<T> got(cells(k), T{99});
                if constexpr (requires { layer.nr_arrays(); }) layer.read(0, got.data());
                else layer.read(got.data());
                std::vector<T> const w(want.values.begin(), want.values.end());
                rec.expect(key + "values of layer", got == w, c + ": " + show_values(got) + " " + show_values(w));
            });
        }
    }

    void compare(std::string const& op)
    {
        auto const key = "after " + op.substr(0, 1) + ": ";
        std::string state;
        for (int k = 0; k < 3; ++k)
        {
            auto const& [pn, sn] = places[k];
            if (!m.contains(k))
            {
                rec.expect(key + "missing raster", !succeeds([&]() { lcr::contains_raster(*ds, pn, sn); }) && !succeeds([&]() { lvr::contains_raster(*ds, pn, sn); }), c);
                rec.expect(key + "missing raster is opened", !succeeds([&]() { lcr::open_raster_view(ds, pn, sn); }) && !succeeds([&]() { lvr::open_raster_view(ds, pn, sn); }), c);
                continue;
            }
            auto& p = m.at(k);
            rec.expect_eq(key + "constant::contains_raster", lcr::contains_raster(*ds, pn, sn), p.kind == 'c' && !p.other.contains("time_grid_shape") , c);
            rec.expect_eq(key + "variable::contains_raster", lvr::contains_raster(*ds, pn, sn), p.kind == 'v', c);
            std::set<std::string> layers;
            for (auto const& [name, l] : p.layers) layers.insert(name);
            if (p.kind == 'c')
            {
                look(k, lcr::open_raster_view(ds, pn, sn), layers, key);
                look(k, lcr::open_raster_view(&*ds, pn, sn), layers, key);
                if (p.c) look(k, *p.c, p.known, key + "first view: ");
            }
            if (p.kind == 'v')
            {
                look(k, lvr::open_raster_view(ds, pn, sn), layers, key);
                if (p.v) look(k, *p.v, p.known, key + "first view: ");
            }
            for (auto const& [_, name] : names)
            {
                if (p.kind == 'n') continue;
                std::tuple<ldm::ID, Shape, lh5::Datatype> info{0, {}, lh5::Datatype{lh5::native_int8}};
                bool const ok = succeeds([&]() { info = p.kind == 'c' ? lcr::probe_raster(path, pn, sn, name) : lvr::probe_raster(path, pn, sn, name); });
                rec.expect_eq(key + "probe_raster", ok, p.layers.contains(name), c + " " + name);
                if (ok && p.layers.contains(name))
                {
                    rec.expect(key + "probe_raster: information", std::get<0>(info) == ids[pn] && std::get<1>(info) == shapes[k] &&
                        std::get<2>(info) == lh5::file_datatype(datatype(p.layers.at(name).type)), c);
                }
            }
            // Properties of the set: those of the view and the layers
            auto& props = ds->phenomena()[pn].property_sets()[sn].properties();
            std::size_t const extra = p.kind == 'c' ? 1 : p.kind == 'v' ? 2 : 0;
            rec.expect_eq(key + "number of properties", props.size(), extra + p.layers.size() + p.other.size(), c);
            state += std::to_string(k) + p.kind;
            for (auto const& [name, l] : p.layers) state += name + std::to_string(l.type) + (l.written ? "w" : "");
            state += "o" + std::to_string(p.other.size()) + "k" + std::to_string(p.known.size());
        }
        std::size_t nr = 0;
        for (auto const& [pn, id] : ids)
        {
            rec.expect_eq(key + "number of objects", ds->phenomena()[pn].object_id().nr_objects(), static_cast<std::size_t>(1), c);
            ++nr;
            state += pn + std::to_string(id);
        }
        rec.expect_eq(key + "number of phenomena", ds->phenomena().size(), nr, c);
        lh5::Issues issues;
        ldm::validate(*ds, issues);
        bool other = false;
        for (auto const& [k, p] : m) other = other || !p.other.empty();
        rec.expect(key + "the dataset is not valid", !issues.errors_found() || other, c + ldm::message(issues));
        rec.state(state), rec.outcome(op + state), rec.trans();
    }

    void step(std::string const& op)
    {
        ++n;
        if (op == "R")
        {
            for (auto& [k, p] : m) p.c.reset(), p.v.reset(), p.known.clear();
            ds.reset();
            ds = std::make_shared<ldm::Dataset>(path, H5F_ACC_RDWR);
            return;
        }
        int const k = op[1] - '0';
        auto const key = op.substr(0, 1) + ": ";
        if (op[0] == 'o')
        {
            std::string const name = k == 0 ? "p" : "q";
            if (ids.contains(name)) return;
            auto& id = ds->add_phenomenon(name).object_id();
            std::uint64_t const value = 40 + k;
            id.expand(1), id.write(0, &value);
            ids[name] = value;
            return;
        }
        auto const& [pn, sn] = places[k];
        if (op[0] == 'c' || op[0] == 'v' || op[0] == 'n')
        {
            bool const free = !m.contains(k);
            SpaceBox const box{1.0 * n, 2.5, 1e300, -7.0};
            TimeBox const time{static_cast<std::uint64_t>(n), 100};
            std::uint64_t const steps = 1 + k;
            Place p{op[0], {}, {}, {}, box, time, steps};
            bool const ok = succeeds([&]() {
                if (op[0] == 'c') p.c = std::make_unique<lcr::RasterView<Ptr>>(lcr::create_raster_view(ds, pn, sn, shapes[k], box));
                if (op[0] == 'v') p.v = std::make_unique<lvr::RasterView<ldm::Dataset*>>(lvr::create_raster_view(&*ds, pn, sn, clock(), steps, time, shapes[k], box));
                if (op[0] == 'n')
                {
                    auto& ph = ds->phenomena().contains(pn) ? ds->phenomena()[pn] : ds->add_phenomenon(pn);
                    if (ph.object_id().nr_objects() == 0)
                    {
                        std::uint64_t const value = 33;
                        ph.object_id().expand(1), ph.object_id().write(0, &value);
                        ids[pn] = value;
                    }
                    ph.property_sets().add(sn);
                }
            });
            rec.expect_eq(key + "create", ok, free, c);
            if (ok && free)
            {
                if (!ids.contains(pn))
                {
                    // An id was chosen
                    std::uint64_t id = 0;
                    ds->phenomena()[pn].object_id().read(0, &id);
                    ids[pn] = id;
                }
                m[k] = std::move(p);
            }
            return;
        }
        if (!m.contains(k) || m.at(k).kind == 'n') return;
        auto& p = m.at(k);
        auto const name = names.at(op[2]);
        bool const used = name == "space_grid_shape" || (name == "time_grid_shape" && p.kind == 'v') || p.layers.contains(name) || p.other.contains(name);
        if (op[0] == 'd')
        {
            if (used) return;
            auto& set = ds->phenomena()[pn].property_sets()[sn];
            if (n % 2) set.properties().add(name, datatype(0), ldm::Rank{2});
            else set.properties().add<ldm::different_shape::constant_shape::Property>(name, datatype(0), ldm::Rank{3});
            p.other.insert(name);
            return;
        }
        if (op[0] == 'e' || op[0] == 'f')
        {
            // Everything of a layer, but the grid is not that of this raster
            if (used || p.other.contains("z")) return;
            int other = -1;
            for (auto const& [l, q] : m) if (l != k && q.kind != 'n' && (p.kind == 'c' || q.kind == 'v')) other = l;
            if (op[0] == 'e' && other < 0) return;
            auto& phenomena = ds->phenomena();
            auto& properties = phenomena[pn].property_sets()[sn].properties();
            using Same = ldm::same_shape::Properties;
            using SameConstant = ldm::same_shape::constant_shape::Properties;
            if (op[0] == 'f')
            {
                properties.add<ldm::same_shape::Property>("z", lh5::native_uint64, Shape{2});
                p.other.insert("z");
            }
            auto& foreign = op[0] == 'f' ? properties : phenomena[places[other].first].property_sets()[places[other].second].properties();
            auto& grid = foreign.collection<Same>()[op[0] == 'f' ? "z" : "space_grid_shape"];
            if (p.kind == 'c')
            {
                auto& y = properties.add(name, datatype(0), ldm::Rank{2});
                y.value().expand(ids[pn], shapes[k]);
                y.set_space_discretization(ldm::SpaceDiscretization::regular_grid, grid);
            }
            else
            {
                auto& y = properties.add<ldm::different_shape::constant_shape::Property>(name, datatype(0), ldm::Rank{3});
                y.value().expand(ids[pn], Shape{p.steps, shapes[k][0], shapes[k][1]}, 1);
                auto& own_time = properties.collection<SameConstant>()["time_grid_shape"];
                auto& own_space = properties.collection<Same>()["space_grid_shape"];
                bool const time = op[0] == 'e' && n % 2 == 0;
                if (time) y.set_time_discretization(ldm::TimeDiscretization::regular_grid, foreign.collection<SameConstant>()["time_grid_shape"]);
                else y.set_time_discretization(ldm::TimeDiscretization::regular_grid, own_time);
                y.set_space_discretization(ldm::SpaceDiscretization::regular_grid, time ? own_space : grid);
            }
            p.other.insert(name);
            return;
        }
        if (op[0] == 'w')
        {
            if (!p.layers.contains(name)) return;
            auto& l = p.layers.at(name);
            as_type(l.type, [&]<typename T>(T) {
                std::vector<T> x(cells(k));
                for (std::size_t i = 0; i < x.size(); ++i) x[i] = static_cast<T>(n * 11 + i);
                l.values.assign(x.begin(), x.end());
                if (p.kind == 'c') lcr::open_raster_view(ds, pn, sn).layer(name).write(x.data());
                else lvr::open_raster_view(ds, pn, sn).layer(name).write(0, x.data());
            });
            l.written = true;
            return;
        }
        // Add a layer
        bool const first = op[0] == 'b';
        if (first && !p.c && !p.v)
        {
            // After reopening: open it again
            if (p.kind == 'c') p.c = std::make_unique<lcr::RasterView<Ptr>>(lcr::open_raster_view(ds, pn, sn));
            else p.v = std::make_unique<lvr::RasterView<ldm::Dataset*>>(lvr::open_raster_view(&*ds, pn, sn));
            for (auto const& [name_, l] : p.layers) p.known.insert(name_);
        }
        Layer l{n % 3};
        l.no_data = p.kind == 'c' && n % 2 == 0;
        l.values.assign(cells(k), 7);
        bool const ok = succeeds([&]() {
            as_type(l.type, [&]<typename T>(T) {
                if (p.kind == 'c')
                {
                    auto add = [&](auto&& view) {
                        auto layer = l.no_data ? view.template add_layer<T>(name, T{7}) : view.template add_layer<T>(name);
                        if (!used) check_layer(k, layer, l, key + "added: ");
                    };
                    if (first) add(*p.c);
                    else add(lcr::open_raster_view(ds, pn, sn));
                }
                else
                {
                    auto add = [&](auto&& view) {
                        auto layer = view.template add_layer<T>(name);
                        if (!used) check_layer(k, layer, l, key + "added: ");
                    };
                    if (first) add(*p.v);
                    else add(lvr::open_raster_view(ds, pn, sn));
                }
            });
        });
        rec.expect_eq(key + (used ? "a layer with a name which is used" : "add layer"), ok, !used, c);
        if (!used && ok)
        {
            p.layers[name] = l;
            // The time discretization is looked for by name
            if (first) p.known.insert(name);
        }
    }
};

static void history(Rec& rec, std::string const& c)
{
    History h{rec, c, rec.scratch + "/h.lue"};
    h.ds = std::make_shared<ldm::Dataset>(ldm::create_dataset(h.path));
    for (auto const& op : words(c.substr(c.find('|') + 2)))
    {
        if (op[0] == 'a' && op[2] == 't' && h.m.contains(0) && h.m.at(0).kind == 'c') continue;   // Taken for something else
        h.step(op);
        h.compare(op);
    }
    rec.trace();
}

// A property-set which has everything of a raster, but for one thing
static void almost(Rec& rec, std::string const& c)
{
    int const i = std::stoi(c.substr(2));
    auto const path = rec.scratch + "/q.lue";
    bool constant = false, variable = false;
    using I = ldm::SpaceDomainItemType;
    using M = ldm::Mobility;
    using T = ldm::TimeDomainItemType;
    {
        auto ds = ldm::create_dataset(path);
        auto& p = ds.add_phenomenon("p");
        auto& o = p.property_sets().add("o", ldm::TimeConfiguration{T::point}, ldm::Clock{ldm::time::Unit::day, 1});
        auto& other = o.properties().add<ldm::same_shape::Property>("x", lh5::native_uint64);
        std::size_t const objects = i == 1 ? 0 : i == 2 ? 2 : 1;
        std::vector<std::uint64_t> const ids{5, 6};
        p.object_id().expand(objects);
        if (objects > 0) p.object_id().write(ldm::IndexRange{0, objects}, ids.data());
        ldm::SpaceConfiguration const sc{i == 3 ? M::mobile : M::stationary, i == 4 ? I::point : I::box};
        ldm::TimeConfiguration const tc{i == 5 ? T::point : i == 6 ? T::cell : T::box};
        bool const timed = i < 30;
        ldm::Clock const clock{ldm::time::Unit::day, 1};
        auto& sets = i == 7 ? p.collection_property_sets() : p.property_sets();
        auto& s = i == 8 ? sets.add("s", tc, clock) : i == 31 ? sets.add("s") : timed ? sets.add("s", tc, clock, sc, lh5::native_float64, 2) : sets.add("s", sc, lh5::native_float64, 2);
        if (s.has_space_domain())
        {
            std::size_t const boxes = i == 9 ? 0 : i == 10 ? 2 : 1;
            if (sc == ldm::SpaceConfiguration{M::stationary, I::box}) s.space_domain().value<ldm::StationarySpaceBox>().expand(boxes);
            if (i == 11) s.space_domain().set_presence_discretization(other);
        }
        if (timed && i != 5)
        {
            std::size_t const boxes = i == 12 ? 0 : i == 13 ? 2 : 1;
            if (i != 6) s.time_domain().value<ldm::TimeBox>().expand(boxes);
            else s.time_domain().value<ldm::TimeCell>().expand(boxes);
        }
        auto& props = s.properties();
        lh5::Datatype const u8{lh5::native_uint64}, u4{lh5::native_uint32}, i8{lh5::native_int64}, f8{lh5::native_float64};
        auto const space_name = i == 14 ? "space_grid_shap" : "space_grid_shape";
        auto const time_name = i == 15 ? "time_grid_shap" : "time_grid_shape";
        if (i == 16) props.add<ldm::same_shape::constant_shape::Property>(space_name, u8, Shape{2}).value().expand(1);
        else if (i == 17) props.add(space_name, u8, ldm::Rank{1});
        else if (i == 32) props.add<ldm::different_shape::constant_shape::Property>(space_name, u8, ldm::Rank{1});
        else if (i == 33) props.add<ldm::different_shape::variable_shape::Property>(space_name, u8, ldm::Rank{1});
        else if (i == 34) props.add<ldm::same_shape::variable_shape::Property>(space_name, u8, ldm::Rank{1});
        else
        {
            auto& x = props.add<ldm::same_shape::Property>(space_name, i == 18 ? i8 : i == 35 ? u4 : i == 36 ? f8 : u8, i == 19 ? Shape{3} : i == 37 ? Shape{1} : i == 38 ? Shape{1, 2} : Shape{2});
            x.value().expand(i == 20 ? 0 : i == 39 ? 2 : 1);
            if (i == 21) x.set_time_discretization(ldm::TimeDiscretization::regular_grid, other);
            if (i == 22) x.set_space_discretization(ldm::SpaceDiscretization::regular_grid, other);
        }
        if (timed)
        {
            if (i == 23) props.add<ldm::same_shape::Property>(time_name, u8, Shape{1}).value().expand(1);
            else if (i == 24) props.add<ldm::same_shape::variable_shape::Property>(time_name, u8, ldm::Rank{1});
            else if (i == 25) props.add<ldm::different_shape::constant_shape::Property>(time_name, u8, ldm::Rank{1});
            else
            {
                auto& x = props.add<ldm::same_shape::constant_shape::Property>(time_name, i == 26 ? f8 : u8, i == 27 ? Shape{2} : Shape{1});
                x.value().expand(i == 28 ? 0 : 1);
                if (i == 29) x.set_space_discretization(ldm::SpaceDiscretization::regular_grid, other);
            }
        }
        variable = i == 0 || (i == 7 ? false : false);
        constant = i == 30 || i == 40 || i == 41 || i == 15;
    }
    ldm::Dataset ds{path};
    auto ask = [&](auto f) -> int {
        int r = 2;
        succeeds([&]() { r = f(ds, "p", "s") ? 1 : 0; });
        return r;
    };
    // A collection property-set is not found
    rec.expect_eq("q: constant::contains_raster", ask(lcr::contains_raster), i == 7 ? 2 : constant ? 1 : 0, c);
    rec.expect_eq("q: variable::contains_raster", ask(lvr::contains_raster), i == 7 ? 2 : variable ? 1 : 0, c);
    rec.expect("q: missing set", !succeeds([&]() { lcr::contains_raster(ds, "p", "x"); }) && !succeeds([&]() { lvr::contains_raster(ds, "x", "s"); }), c);
    rec.trans(4), rec.trace(), rec.state(c), rec.outcome(c);
}

static void typed(Rec& rec, std::string const& c)
{
    auto const w = words(c);
    auto const path = rec.scratch + "/t.lue";
    Shape const s{std::stoul(w[2]), std::stoul(w[3])};
    std::uint64_t const steps = std::stoul(w[4]);
    with_type(w[1], [&]<typename T>(T) {
        Source<T> next;
        auto const a = next.many(size_of(s)), b = next.many(size_of(s)), v = next.many(size_of(s) * steps);
        std::vector<std::uint8_t> flags(size_of(s));
        for (std::size_t i = 0; i < flags.size(); ++i) flags[i] = i % 3 == 0;
        {
            auto ds = std::make_shared<ldm::Dataset>(ldm::create_dataset(path, "d"));
            auto x = lcr::create_raster_view(ds, "p", "c", s, {-1.5, 2, 3, 1e-300});
            x.template add_layer<T>("a").write(a.data());
            x.template add_layer<T>("b", T{9}).write(b.data());
            x.template add_layer<T>("n", T{9});
            x.template add_layer<bool>("f").write(flags.data());
            x.template add_layer<bool>("g", true);
            auto y = lvr::create_raster_view(ds, "p", "v", ldm::Clock{ldm::time::Unit::month, 3}, steps, {5, 7}, s, {0, 0, 1, 1});
            auto layer = y.template add_layer<T>("v");
            layer.write(0, v.data());
            y.template add_layer<bool>("w");
        }
        auto ds = std::make_shared<ldm::Dataset>(path);
        auto x = lcr::open_raster_view(ds, "p", "c");
        auto y = lvr::open_raster_view(ds, "p", "v");
        auto read = [&](std::string const& name) { std::vector<T> r(size_of(s)); x.layer(name).read(r.data()); return r; };
        rec.expect("t: layer", read("a") == a && read("b") == b, c);
        rec.expect("t: no-data value", read("n") == std::vector<T>(size_of(s), T{9}), c);
        std::vector<std::uint8_t> got(size_of(s));
        x.layer("f").read(got.data());
        rec.expect("t: flags", got == flags, c);
        x.layer("g").read(got.data());
        rec.expect("t: no-data value of flags", got == std::vector<std::uint8_t>(size_of(s), 1), c);
        std::vector<T> r(v.size());
        y.layer("v").read(0, r.data());
        rec.expect("t: variable layer", r == v, c);
        rec.expect("t: views", x.grid_shape() == s && y.grid_shape() == s && y.nr_time_steps() == steps && y.time_box() == TimeBox{5, 7} &&
            x.space_box() == SpaceBox{-1.5, 2, 3, 1e-300} && y.space_box() == SpaceBox{0, 0, 1, 1} && x.object_id() == y.object_id(), c);
        rec.expect("t: clock", ds->phenomena()["p"].property_sets()["v"].time_domain().clock() == ldm::Clock{ldm::time::Unit::month, 3}, c);
        rec.expect("t: probe", std::get<2>(lcr::probe_raster(path, "p", "c", "a")) == lh5::file_datatype(lh5::native_datatype<T>()) &&
            std::get<2>(lvr::probe_raster(path, "p", "v", "v")) == lh5::file_datatype(lh5::native_datatype<T>()), c);
        rec.expect("t: read-only dataset is changed", !succeeds([&]() { x.template add_layer<T>("z"); }) && !succeeds([&]() { lcr::create_raster_view(ds, "p", "k", s, {}); }), c);
    });
    rec.trans(20), rec.trace(), rec.state(c), rec.outcome(c);
}

static void names_of_arrays(Rec& rec, std::string const& c)
{
    auto const text = c.substr(2);
    auto const t = words(text, '/');
    std::array<std::string, 3> three;
    std::array<std::string, 4> four;
    bool const is3 = succeeds([&]() { three = lue::parse_array_pathname3(text); });
    rec.expect_eq("p: three names", is3, t.size() == 3, c);
    if (is3 && t.size() == 3) rec.expect("p: the three names", three == std::array<std::string, 3>{t[0], t[1], t[2]}, c);
    bool const is4 = succeeds([&]() { four = lue::parse_array_pathname(text); });
    rec.expect_eq("p: four names", is4, t.size() >= 4, c);
    if (is4 && t.size() >= 4)
    {
        auto const n = t.size();
        rec.expect("p: the last three names", four[1] == t[n - 3] && four[2] == t[n - 2] && four[3] == t[n - 1], c);
        std::vector<std::string> const front(t.begin(), t.end() - 3);
        // The same file, however it is written
        auto parts = [](std::string const& p) {
            std::vector<std::string> r;
            for (auto const& x : words(p, '/')) if (!x.empty()) r.push_back(x);
            return r;
        };
        rec.expect_eq("p: path of the dataset", parts(four[0]), parts(join(front, '/')), c);
        rec.expect_eq("p: absolute", !four[0].empty() && four[0][0] == '/', text[0] == '/', c + " -> " + four[0]);
    }
    rec.trans(2), rec.trace(), rec.state(c), rec.outcome(std::to_string(t.size()) + four[0]);
}

void run(std::string const& c, Rec& rec)
{
    switch (c[0])
    {
        case 'h': history(rec, c); break;
        case 'q': almost(rec, c); break;
        case 't': typed(rec, c); break;
        default: names_of_arrays(rec, c);
    }
}

MC_MAIN
