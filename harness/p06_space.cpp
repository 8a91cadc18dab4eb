// P06: space domains and links between properties and what discretizes them
#include "values.hpp"

using namespace mc;

// case: v <mobility> <item> <type> <rank> <time> | op op ..   locations in space: + ++ w W R H (time: with a time domain)
//       l op op op        links:  a<kind> add a property of this kind to the next set (0, 1, 2, 0, ..)
//                          t<i><j> s<i><j>  discretize property i through time / space by property j
//                          p<i>    discretize the presence in space of set 1 by property i
//                          R H
//       n<naming> op op op     links, with names according to the naming: S the same names in all sets, L long, O odd names

using M = ldm::Mobility;
using I = ldm::SpaceDomainItemType;

void enumerate(std::string const& tier, Emit const& emit)
{
    for (std::string m : {"stationary", "mobile"})
    {
        for (std::string i : {"point", "box"})
        {
            for (auto const& t : all_types)
            {
                for (std::string r : {"1", "2", "3", "4"})
                {
                    for (std::string time : {"-", "time"})
                    {
                        emit("v " + m + " " + i + " " + t + " " + r + " " + time + " | + w ++ W R + W H ++ w");
                    }
                }
            }
            for (int depth = 1; depth <= (tier == "thorough" ? 6 : 4); ++depth)
            {
                sequences({"+", "++", "w", "W", "R", "H"}, depth, "", [&](std::string const& s) { emit("v " + m + " " + i + " f8 2 - | " + s); });
            }
        }
    }
    std::vector<std::string> links;
    for (std::string k : {"aA", "aB", "aC", "aD", "aE", "aF"}) links.push_back(k);
    std::vector<std::string> second{"t01", "s01", "t10", "s12", "s00", "t21", "p0", "p1", "R", "H", "aD"};
    for (auto const& a : links)
    {
        for (auto const& b : links)
        {
            sequences(second, tier == "thorough" ? 4 : 3, "l " + a + " " + b + " aA", emit);
            for (std::string n : {"nS ", "nL ", "nO "})
            {
                sequences({"t01", "s12", "s20", "p0", "p1", "t32", "R"}, tier == "thorough" ? 3 : 2, n + a + " " + b + " aA aD", emit);
            }
        }
    }
}

std::string crash_key(std::string const& c)
{
    return c.substr(0, 10);
}

template<typename V, typename T>
static void locations(Rec& rec, std::string const& c, std::vector<std::string> const& w, M m, I item)
{
    std::size_t const rank = std::stoul(w[4]);
    std::size_t const per = item == I::point ? rank : 2 * rank;
    auto const path = rec.scratch + "/d.lue";
    lh5::Datatype const dt{lh5::native_datatype<T>()};
    ldm::SpaceConfiguration const sc{m, item};
    ldm::TimeConfiguration const tc{ldm::TimeDomainItemType::box};
    ldm::Clock const clock{ldm::time::Unit::day, 1};
    std::vector<std::unique_ptr<ldm::Dataset>> ds;
    ds.push_back(std::make_unique<ldm::Dataset>(ldm::create_dataset(path)));
    {
        auto& sets = ds.back()->add_phenomenon("p").property_sets();
        w[5] == "time" ? sets.add("s", tc, clock, sc, dt, rank) : sets.add("s", sc, dt, rank);
    }
    auto set = [&]() -> ldm::PropertySet& { return ds.back()->phenomena()["p"].property_sets()["s"]; };
    Source<T> next;
    std::vector<T> cells;
    std::vector<char> known;
    for (auto const& op : words(c.substr(c.find('|') + 2)))
    {
        if (op == "R")
        {
            ds.clear();
            ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        }
        else if (op == "H") ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        else
        {
            auto v = set().space_domain().template value<V>();
            if (op[0] == '+')
            {
                v.expand(op.size());
                cells.resize(cells.size() + op.size() * per);
                known.resize(cells.size(), 0);
            }
            if (op == "w" && !cells.empty())
            {
                cells = next.many(cells.size());
                known.assign(cells.size(), 1);
                static_cast<ldm::Array&>(v).write(cells.data());
            }
            if (op == "W" && !cells.empty())
            {
                auto x = next.many(per);
                std::copy(x.begin(), x.end(), cells.end() - per);
                std::fill(known.end() - per, known.end(), 1);
                v.write(ldm::Index{cells.size() / per - 1}, x.data());
            }
        }
        rec.trans();
        auto const key = w[1] + " " + w[2] + " after " + op + ": ";
        rec.expect(key + "has_space_domain", set().has_space_domain(), c);
        rec.expect(key + "time domain", set().has_time_domain() == (w[5] == "time"), c);
        auto const& got_sc = set().space_domain().configuration();
        rec.expect(key + "configuration", got_sc.template value<M>() == m && got_sc.template value<I>() == item && got_sc == sc, c);
        // Opened with and without the datatype passed in
        auto v = set().space_domain().template value<V>(dt);
        auto v2 = set().space_domain().template value<V>();
        rec.expect(key + "datatype", v.memory_datatype() == dt && v2.memory_datatype() == dt, c);
        rec.expect(key + "shape of items", v.array_shape() == Shape{per}, c);
        rec.expect_eq(key + "number of items", v.nr_arrays(), cells.size() / per, c);
        if constexpr (requires { v.nr_points(); }) rec.expect_eq(key + "nr_points", v.nr_points(), cells.size() / per, c);
        if constexpr (requires { v.nr_boxes(); }) rec.expect_eq(key + "nr_boxes", v.nr_boxes(), cells.size() / per, c);
        if (v.nr_arrays() * per != cells.size())
        {
            return;
        }
        if (!cells.empty() && std::count(known.begin(), known.end(), 0) == 0)
        {
            std::vector<T> got(cells.size() + 1, T{99});
            static_cast<ldm::Array&>(v).read(got.data());
            rec.expect(key + "reads too much", got.back() == T{99}, c);
            got.pop_back();
            rec.expect(key + "coordinates", got == cells, c + ": " + show_values(got) + ", expected " + show_values(cells));
            std::vector<T> one(per);
            v2.read(ldm::Index{cells.size() / per - 1}, one.data());
            rec.expect(key + "coordinates of the last", std::equal(one.begin(), one.end(), cells.end() - per), c);
        }
        rec.state(w[1] + w[2] + w[3] + w[4] + std::to_string(cells.size()) + std::string(known.begin(), known.end()));
        rec.outcome(w[1] + w[2] + w[3] + w[4] + op + std::to_string(cells.size()));
    }
    rec.trace();
    ds.clear();
    std::filesystem::remove(path);
}

// ---- links

struct Prop
{
    char kind;
    std::size_t set;
    std::string name;
    int time{-1}, space{-1};
};

static auto group(ldm::PropertySet& s, Prop const& p) -> ldm::PropertyGroup&
{
    auto& ps = s.properties();
    switch (p.kind)
    {
        case 'A': return ps.collection<ldm::same_shape::Properties>()[p.name];
        case 'B': return ps.collection<ldm::same_shape::constant_shape::Properties>()[p.name];
        case 'C': return ps.collection<ldm::same_shape::variable_shape::Properties>()[p.name];
        case 'D': return ps.collection<ldm::different_shape::Properties>()[p.name];
        case 'E': return ps.collection<ldm::different_shape::constant_shape::Properties>()[p.name];
        default: return ps.collection<ldm::different_shape::variable_shape::Properties>()[p.name];
    }
}

static void links(Rec& rec, std::string const& c)
{
    auto const path = rec.scratch + "/d.lue";
    // Names of phenomena, sets and properties
    auto const name = [&](std::string const& n) -> std::string {
        if (c[0] != 'n') return n;
        switch (c[1])
        {
            case 'S': return n == "q" ? n : n[0] == 'x' ? std::string(1, 'x') + (n == "x3" ? "3" : "") : "s";
            case 'L': return n + std::string(n[0] == 'x' ? 300 : 230, n[0]);
            default: return n + " .\xc3\xa9%{}\\\n..";
        }
    };
    std::vector<std::unique_ptr<ldm::Dataset>> ds;
    ds.push_back(std::make_unique<ldm::Dataset>(ldm::create_dataset(path)));
    lh5::Datatype const dt{lh5::native_float64};
    {
        auto& p = ds.back()->add_phenomenon(name("p"));
        p.property_sets().add(name("s0"));
        p.collection_property_sets().add(name("s1"), ldm::SpaceConfiguration{M::stationary, I::box}, dt, 2);
        ds.back()->add_phenomenon(name("q")).property_sets().add(name("s2"));
    }
    auto set = [&](std::size_t k) -> ldm::PropertySet& {
        return k == 0 ? ds.back()->phenomena()[name("p")].property_sets()[name("s0")]
             : k == 1 ? ds.back()->phenomena()[name("p")].collection_property_sets()[name("s1")]
                      : ds.back()->phenomena()[name("q")].property_sets()[name("s2")];
    };
    std::vector<Prop> props;
    int presence = -1;
    auto prop = [&](std::size_t i) -> ldm::PropertyGroup& { return group(set(props[i].set), props[i]); };
    for (auto const& op : words(c.substr(c[0] == 'n' ? 3 : 2)))
    {
        if (op == "R")
        {
            ds.clear();
            ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        }
        else if (op == "H") ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        else if (op[0] == 'a')
        {
            Prop n{op[1], props.size() % 3, name("x" + std::to_string(props.size()))};
            auto& ps = set(n.set).properties();
            switch (n.kind)
            {
                case 'A': ps.add<ldm::same_shape::Property>(n.name, dt, Shape{3}); break;
                case 'B': ps.add<ldm::same_shape::constant_shape::Property>(n.name, dt, Shape{2}); break;
                case 'C': ps.add<ldm::same_shape::variable_shape::Property>(n.name, dt, ldm::Rank{2}); break;
                case 'D': ps.add(n.name, dt, ldm::Rank{2}); break;
                case 'E': ps.add<ldm::different_shape::constant_shape::Property>(n.name, dt, ldm::Rank{2}); break;
                default: ps.add<ldm::different_shape::variable_shape::Property>(n.name, dt, ldm::Rank{2});
            }
            props.push_back(n);
        }
        else if (op[0] == 'p')
        {
            std::size_t const i = op[1] - '0';
            bool const ok = succeeds([&]() { set(1).space_domain().set_presence_discretization(prop(i)); });
            rec.expect("links: presence: " + std::string(ok ? "set twice" : "not set"), ok == (presence < 0), c);
            if (ok && presence < 0)
            {
                presence = i;
            }
        }
        else
        {
            std::size_t const i = op[1] - '0', j = op[2] - '0';
            auto& link = op[0] == 't' ? props[i].time : props[i].space;
            bool const ok = succeeds([&]() {
                op[0] == 't' ? prop(i).set_time_discretization(ldm::TimeDiscretization::regular_grid, prop(j))
                             : prop(i).set_space_discretization(ldm::SpaceDiscretization::regular_grid, prop(j));
            });
            rec.expect("links: " + op.substr(0, 1) + std::string(ok ? " set twice" : " not set"), ok == (link < 0), c);
            if (ok && link < 0)
            {
                link = j;
            }
        }
        rec.trans();
        // Compare
        std::string state;
        for (std::size_t i = 0; i < props.size(); ++i)
        {
            auto& g = prop(i);
            auto const key = "links: after " + op.substr(0, 1) + ": ";
            auto const at = c + ": property " + std::to_string(i);
            rec.expect_eq(key + "name", g.name(), props[i].name, at);
            rec.expect_eq(key + "time_is_discretized", g.time_is_discretized(), props[i].time >= 0, at);
            rec.expect_eq(key + "space_is_discretized", g.space_is_discretized(), props[i].space >= 0, at);
            if (g.time_is_discretized() && props[i].time >= 0)
            {
                rec.expect(key + "time_discretization_type", g.time_discretization_type() == ldm::TimeDiscretization::regular_grid, at);
                auto l = g.time_discretization_property();
                rec.expect_eq(key + "time discretization property", l.name(), props[props[i].time].name, at);
                rec.expect(key + "time discretization property is another", l.id() == prop(props[i].time).id(), at);
            }
            if (g.space_is_discretized() && props[i].space >= 0)
            {
                rec.expect(key + "space_discretization_type", g.space_discretization_type() == ldm::SpaceDiscretization::regular_grid, at);
                auto l = g.space_discretization_property();
                rec.expect_eq(key + "space discretization property", l.name(), props[props[i].space].name, at);
                rec.expect(key + "space discretization property is another", l.id() == prop(props[i].space).id(), at);
            }
            state += std::string(1, props[i].kind) + std::to_string(props[i].time) + std::to_string(props[i].space);
        }
        auto& sd = set(1).space_domain();
        rec.expect_eq("links: presence_is_discretized", sd.presence_is_discretized(), presence >= 0, c);
        if (presence >= 0 && sd.presence_is_discretized())
        {
            auto l = sd.discretized_presence_property();
            rec.expect("links: discretized presence property", l.id() == prop(presence).id() && l.name() == props[presence].name, c);
        }
        rec.state(state + std::to_string(presence));
        rec.outcome(op + state);
    }
    rec.trace();
    ds.clear();
    std::filesystem::remove(path);
}

void run(std::string const& c, Rec& rec)
{
    auto w = words(c);
    if (w[0] == "l" || w[0][0] == 'n')
    {
        links(rec, c);
        return;
    }
    with_type(w[3], [&](auto t) {
        using T = decltype(t);
        if (w[1] == "mobile" && w[2] == "point") locations<ldm::MobileSpacePoint, T>(rec, c, w, M::mobile, I::point);
        if (w[1] == "mobile" && w[2] == "box") locations<ldm::MobileSpaceBox, T>(rec, c, w, M::mobile, I::box);
        if (w[1] == "stationary" && w[2] == "point") locations<ldm::StationarySpacePoint, T>(rec, c, w, M::stationary, I::point);
        if (w[1] == "stationary" && w[2] == "box") locations<ldm::StationarySpaceBox, T>(rec, c, w, M::stationary, I::box);
    });
}

MC_MAIN
