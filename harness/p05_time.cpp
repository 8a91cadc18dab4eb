// P05: time domains: clocks, epochs, configurations and locations in time
#include "values.hpp"

using namespace mc;
namespace t = lue::data_model::time;

// case: k <kind> <unit> <nr_units> <epoch>     a time domain with this configuration and clock, stored and reopened
//       c                                      all pairs and triples of clocks: equality and ordering
//       v <kind> <per> | op op op              locations in time: + expand 1, ++ expand 2, w write all, W write last,
//                                              c counts (cells), R reopen, H second handle
//       d                                      durations, tick periods, time points
//       b                                      all bytes as name of an aspect

static std::vector<t::Unit> const units{t::Unit::nanosecond, t::Unit::microsecond, t::Unit::millisecond, t::Unit::second,
    t::Unit::minute, t::Unit::hour, t::Unit::day, t::Unit::week, t::Unit::month, t::Unit::year};
static char const* unit_names[] = {"nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year"};
static std::vector<std::uint64_t> const counts{1, 0, 2, 7, 1000, 4294967296ULL, 18446744073709551615ULL};

static std::vector<t::Epoch> epochs()
{
    using K = t::Epoch::Kind;
    std::vector<t::Epoch> r{t::Epoch{}};
    for (auto k : {K::common_era, K::formation_of_earth})
    {
        r.emplace_back(k);
        for (std::string o : {"2026-01-01", "2026-01-01T00:00:00+00:00", "x", "ééé", "1970-01-01T00:00:00+00:00"})
        {
            r.emplace_back(k, o);
            if (!(k == K::common_era && o == "1970-01-01T00:00:00+00:00"))
            {
                r.emplace_back(k, o, t::Calendar::gregorian);
            }
        }
    }
    return r;
}

static auto epoch_string(t::Epoch const& e) -> std::string
{
    return std::to_string(static_cast<int>(e.kind())) + "|" + (e.origin() ? *e.origin() : "-none-") + "|" +
           (e.calendar() ? std::to_string(static_cast<int>(*e.calendar())) : "-none-");
}
static auto clock_string(ldm::Clock const& c) -> std::string
{
    return epoch_string(c.epoch()) + "|" + std::to_string(static_cast<int>(c.unit())) + "|" + std::to_string(c.nr_units());
}

void enumerate(std::string const& tier, Emit const& emit)
{
    for (std::string kind : {"point", "box", "cell"})
    {
        for (std::size_t u = 0; u < units.size(); ++u)
        {
            for (auto n : counts)
            {
                for (std::size_t e = 0; e < epochs().size(); ++e)
                {
                    if (tier == "thorough" || e == 0 || n == 1 || (u == 3 && n == 7))
                    {
                        emit("k " + kind + " " + std::to_string(u) + " " + std::to_string(n) + " " + std::to_string(e));
                    }
                }
            }
        }
    }
    emit("c");
    emit("d");
    emit("b");
    for (std::string kind : {"point", "box", "cell"})
    {
        for (int depth = 1; depth <= (tier == "thorough" ? 6 : 4); ++depth)
        {
            sequences({"+", "++", "w", "W", kind == "cell" ? "c" : "r", "R", "H"}, depth, "", [&](std::string const& s) { emit("v " + kind + " | " + s); });
        }
    }
}

std::string crash_key(std::string const& c)
{
    return c.substr(0, 6);
}

using TD = ldm::TimeDomainItemType;

static auto type_of(std::string const& k) -> TD
{
    return k == "point" ? TD::point : k == "box" ? TD::box : TD::cell;
}

static void clocks(Rec& rec)
{
    std::vector<ldm::Clock> cs;
    for (auto u : units)
    {
        for (auto n : {1ULL, 2ULL, 3ULL, 18446744073709551615ULL})
        {
            for (auto const& e : epochs())
            {
                cs.emplace_back(e, u, n);
            }
        }
    }
    auto const N = cs.size();
    std::vector<std::string> names;
    for (auto const& c : cs)
    {
        names.push_back(clock_string(c));
    }
    std::vector<std::vector<char>> less(N, std::vector<char>(N));
    for (std::size_t i = 0; i < N; ++i)
    {
        for (std::size_t j = 0; j < N; ++j)
        {
            rec.trans();
            auto const where = names[i] + " and " + names[j];
            rec.expect("clocks: == differs from same epoch, unit and count", (cs[i] == cs[j]) == (names[i] == names[j]), where);
            rec.expect("clocks: != is not the opposite of ==", (cs[i] != cs[j]) == !(cs[i] == cs[j]), where);
            less[i][j] = cs[i] < cs[j];
            if (less[i][j] && cs[i] == cs[j])
            {
                rec.violation("clocks: < of equal clocks", where);
            }
        }
    }
    for (std::size_t i = 0; i < N; ++i)
    {
        for (std::size_t j = 0; j < N; ++j)
        {
            rec.expect("clocks: both < or neither of different clocks", i == j || less[i][j] != less[j][i], names[i] + " and " + names[j]);
        }
    }
    for (std::size_t i = 0; i < N; ++i)
    {
        for (std::size_t j = 0; j < N; ++j)
        {
            if (less[i][j])
            {
                for (std::size_t k = 0; k < N; ++k)
                {
                    if (less[j][k] && !less[i][k])
                    {
                        rec.violation("clocks: < not transitive", names[i] + ", " + names[j] + ", " + names[k]);
                    }
                }
            }
        }
    }
    for (auto const& n : names)
    {
        rec.state(n);
    }
    // Defaults
    ldm::Clock d{t::Unit::day, 3};
    rec.expect_eq("clocks: default epoch", epoch_string(d.epoch()), std::string("0|1970-01-01T00:00:00+00:00|0"), "Clock{day, 3}");
    rec.expect("clocks: unit", d.unit() == t::Unit::day && d.nr_units() == 3, "Clock{day, 3}");
    rec.trace();
}

template<typename Unit>
static void durations(Rec& rec)
{
    using TP = t::TickPeriod<Unit>;
    using C = t::Clock<TP>;
    using P = t::TimePoint<C>;
    rec.expect_eq("durations: default tick period", TP{}.nr_units(), std::uint64_t{1}, "");
    for (std::uint64_t n : {1ULL, 2ULL, 7ULL, 365ULL, 65536ULL})
    {
        for (std::uint64_t k : {0ULL, 1ULL, 2ULL, 3ULL, 100ULL, 1000000007ULL})
        {
            for (auto const& e : epochs())
            {
                C c{e, TP{n}};
                typename C::Duration d{k};
                P p{d};
                auto const where = std::to_string(k) + " ticks of " + std::to_string(n);
                rec.expect_eq("durations: nr_ticks", d.nr_ticks(), k, where);
                rec.expect_eq("durations: nr_ticks of time point", p.nr_ticks(), k, where);
                rec.expect_eq("durations: units since epoch", c.nr_units(p), n * k, where);
                rec.expect_eq("durations: tick period", c.tick_period().nr_units(), n, where);
                rec.expect_eq("durations: epoch", epoch_string(c.epoch()), epoch_string(e), where);
                rec.expect("durations: ==", (d == typename C::Duration{n}) == (k == n), where);
                rec.trans();
            }
        }
    }
    rec.trace();
}

static void stored(Rec& rec, std::string const& c)
{
    auto w = words(c);
    ldm::Clock const clock{epochs()[std::stoul(w[4])], units[std::stoul(w[2])], std::stoull(w[3])};
    ldm::TimeConfiguration const tc{type_of(w[1])};
    auto const path = rec.scratch + "/d.lue";
    auto look = [&](ldm::Dataset& ds, std::string const& when) {
        auto& s = ds.phenomena()["p"].property_sets()["s"];
        rec.expect(when + " has_time_domain", s.has_time_domain() && s.owns_time_domain(), c);
        rec.expect_eq(when + " clock", clock_string(s.time_domain().clock()), clock_string(clock), c);
        rec.expect(when + " item type", s.time_domain().configuration().value<TD>() == type_of(w[1]), c);
        auto const b = lh5::Shape{2}, one = lh5::Shape{1};
        if (w[1] == "point") rec.expect(when + " shape of items", s.time_domain().value<ldm::TimePoint>().array_shape() == one, c);
        if (w[1] == "box") rec.expect(when + " shape of items", s.time_domain().value<ldm::TimeBox>().array_shape() == b, c);
        if (w[1] == "cell") rec.expect(when + " shape of items", s.time_domain().value<ldm::TimeCell>().array_shape() == b, c);
        // What is stored is the name of the unit
        rec.expect_eq(when + " name of unit", s.time_domain().attributes().read<std::string>("lue_time_unit"), std::string(unit_names[static_cast<int>(clock.unit())]), c);
    };
    {
        auto ds = ldm::create_dataset(path);
        ds.add_phenomenon("p").property_sets().add("s", tc, clock);
        look(ds, "created:");
        rec.trans();
    }
    {
        ldm::Dataset ds{path};
        look(ds, "reopened:");
        rec.trans();
    }
    rec.state(clock_string(clock) + w[1]);
    rec.outcome(c);
    rec.trace();
    std::filesystem::remove(path);
}

template<typename V>
static void locations(Rec& rec, std::string const& c, std::string const& kind)
{
    using U = std::uint64_t;
    std::size_t const per = kind == "point" ? 1 : 2;
    auto const path = rec.scratch + "/d.lue";
    std::vector<std::unique_ptr<ldm::Dataset>> ds;
    ds.push_back(std::make_unique<ldm::Dataset>(ldm::create_dataset(path)));
    ldm::Clock const clock{t::Unit::hour, 6};
    ds.back()->add_phenomenon("p").property_sets().add("s", ldm::TimeConfiguration{type_of(kind)}, clock);
    auto domain = [&]() -> ldm::TimeDomain& { return ds.back()->phenomena()["p"].property_sets()["s"].time_domain(); };
    std::vector<U> cells;
    std::vector<char> known;
    std::vector<U> cnt;
    U next = 1000;
    auto ops = words(c.substr(c.find('|') + 2));
    for (auto const& op : ops)
    {
        {
            auto v = domain().template value<V>();
            if (op[0] == '+')
            {
                v.expand(op.size());
                cells.resize(cells.size() + op.size() * per);
                known.resize(cells.size(), 0);
            }
            if (op == "w")
            {
                for (auto& x : cells) x = ++next * 0x100000001ULL;
                known.assign(cells.size(), 1);
                if (!cells.empty()) static_cast<ldm::Array&>(v).write(cells.data());
            }
            if (op == "W" && !cells.empty())
            {
                auto const i = cells.size() / per - 1;
                for (std::size_t k = 0; k < per; ++k)
                {
                    cells[i * per + k] = ++next;
                    known[i * per + k] = 1;
                }
                v.write(ldm::Index{i}, cells.data() + i * per);
            }
            if constexpr (std::is_same_v<V, ldm::TimeCell>)
            {
                if (op == "c")
                {
                    auto& n = v.count();
                    auto const k = cnt.size();
                    n.expand(2);
                    cnt.push_back(++next), cnt.push_back(++next);
                    n.write(ldm::IndexRange{k, k + 2}, cnt.data() + k);
                }
            }
        }
        if (op == "R")
        {
            ds.clear();
            ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        }
        if (op == "H") ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
        rec.trans();
        auto v = domain().template value<V>();
        auto const key = kind + " after " + op + ": ";
        rec.expect_eq(key + "number of locations", v.nr_locations(), cells.size() / per, c);
        if (v.nr_locations() * per != cells.size())
        {
            return;
        }
        std::vector<U> got(cells.size() + 1, 77);
        if (!cells.empty() && std::count(known.begin(), known.end(), 0) == 0)
        {
            static_cast<ldm::Array&>(v).read(got.data());
            rec.expect(key + "locations", std::equal(cells.begin(), cells.end(), got.begin()) && got.back() == 77, c + ": " + show_values(got) + " expected " + show_values(cells));
            for (std::size_t i = 0; i < cells.size() / per; ++i)
            {
                std::vector<U> one(per);
                v.read(ldm::Index{i}, one.data());
                rec.expect(key + "location", std::equal(one.begin(), one.end(), cells.begin() + i * per), c);
            }
        }
        if constexpr (std::is_same_v<V, ldm::TimeCell>)
        {
            rec.expect_eq(key + "nr_counts", v.nr_counts(), cnt.size(), c);
            std::vector<U> g(v.nr_counts());
            if (!g.empty())
            {
                static_cast<ldm::Array&>(v.count()).read(g.data());
            }
            rec.expect_eq(key + "counts", g, cnt, c);
        }
        rec.state(kind + std::to_string(cells.size()) + std::string(known.begin(), known.end()) + std::to_string(cnt.size()));
        rec.outcome(op + kind + std::to_string(cells.size()) + "," + std::to_string(cnt.size()));
    }
    rec.trace();
    ds.clear();
    std::filesystem::remove(path);
}

template<typename T>
static void aspect(Rec& rec, std::vector<std::pair<T, std::string>> const& names)
{
    for (auto const& [v, n] : names)
    {
        rec.expect_eq("aspects: name", ldm::aspect_to_string<T>(v), n, n);
        rec.expect("aspects: value", ldm::string_to_aspect<T>(n) == v, n);
        // Any other string is rejected
        for (std::string s : {n + " ", n.substr(1), n.substr(0, n.size() - 1), std::string{}, std::string("unknown"), "X" + n})
        {
            bool known = false;
            for (auto const& [w, m] : names)
            {
                known = known || m == s;
            }
            rec.expect("aspects: unknown name accepted", succeeds([&]() { ldm::string_to_aspect<T>(s); }) == known, s);
            rec.trans();
        }
    }
}

void run(std::string const& c, Rec& rec)
{
    auto w = words(c);
    if (w[0] == "k") stored(rec, c);
    if (w[0] == "c") clocks(rec);
    if (w[0] == "d")
    {
        durations<t::Second>(rec);
        durations<t::Minute>(rec);
        durations<t::Day>(rec);
        durations<t::Week>(rec);
        durations<t::Month>(rec);
        durations<t::Year>(rec);
    }
    if (w[0] == "b")
    {
        std::vector<std::pair<t::Unit, std::string>> u;
        for (auto x : units) u.emplace_back(x, unit_names[static_cast<int>(x)]);
        aspect<t::Unit>(rec, u);
        aspect<TD>(rec, {{TD::box, "box"}, {TD::cell, "cell"}, {TD::point, "point"}});
        aspect<t::Calendar>(rec, {{t::Calendar::gregorian, "gregorian"}});
        aspect<t::Epoch::Kind>(rec, {{t::Epoch::Kind::common_era, "common_era"}, {t::Epoch::Kind::formation_of_earth, "formation_of_earth"}});
        aspect<ldm::Mobility>(rec, {{ldm::Mobility::mobile, "mobile"}, {ldm::Mobility::stationary, "stationary"}});
        aspect<ldm::SpaceDomainItemType>(rec, {{ldm::SpaceDomainItemType::box, "box"}, {ldm::SpaceDomainItemType::point, "point"}});
        aspect<ldm::ShapePerObject>(rec, {{ldm::ShapePerObject::same, "same_shape"}, {ldm::ShapePerObject::different, "different_shape"}});
        aspect<ldm::ValueVariability>(rec, {{ldm::ValueVariability::constant, "constant"}, {ldm::ValueVariability::variable, "variable"}});
        aspect<ldm::ShapeVariability>(rec, {{ldm::ShapeVariability::constant, "constant_shape"}, {ldm::ShapeVariability::variable, "variable_shape"}});
        aspect<ldm::TimeDiscretization>(rec, {{ldm::TimeDiscretization::regular_grid, "regular_grid"}});
        aspect<ldm::SpaceDiscretization>(rec, {{ldm::SpaceDiscretization::regular_grid, "regular_grid"}});
    }
    if (w[0] == "v")
    {
        if (w[1] == "point") locations<ldm::TimePoint>(rec, c, w[1]);
        if (w[1] == "box") locations<ldm::TimeBox>(rec, c, w[1]);
        if (w[1] == "cell") locations<ldm::TimeCell>(rec, c, w[1]);
    }
}

MC_MAIN
