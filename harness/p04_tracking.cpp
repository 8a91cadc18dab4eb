// P04: object tracking information and domains, owned by a property set or shared between property sets
#include "values.hpp"

using namespace mc;

// case: op op op
//   n     add a set with a tracker of its own, no domains           s   and with a space domain
//   t     and with a time domain of its own                         ts  and with a space domain
//   T<k>  its own time domain, tracker shared with set k
//   D<k>  time domain shared with set k, its own tracker            Ds<k>  and with a space domain
//   B<k>  both shared with set k                                    Bs<k>  and with a space domain
//   i<k>  append an active set with 2 objects to the tracker, by means of set k
//   e<k>  append an empty active set                                j<k>   append active object indices
//   d<k>  append a location in time to the time domain, by means of set k
//   p<k>  append a location in space
//   o     append an object id to the phenomenon
//   R     close and reopen                                          H   use another handle
// k is 0 or L (last). Even sets are property-sets, odd ones are collection property-sets.

void enumerate(std::string const& tier, Emit const& emit)
{
    std::vector<std::string> all{"n", "s", "t", "ts", "T0", "TL", "D0", "DL", "Ds0", "DsL", "B0", "BL", "Bs0", "BsL", "i0", "iL",
        "eL", "jL", "d0", "dL", "pL", "o", "R", "H"};
    for (int depth = 1; depth <= 3; ++depth)
    {
        sequences(all, depth, "", emit);
    }
    std::vector<std::string> few{"ts", "TL", "DL", "B0", "BsL", "i0", "iL", "dL", "R"};
    sequences(few, 4, "", emit);
    std::vector<std::string> fewer{"BL", "Bs0", "T0", "i0", "iL", "dL"};
    sequences(fewer, tier == "thorough" ? 6 : 4, "ts", emit);
    sequences({"DL", "TL", "i0", "d0", "R", "H"}, tier == "thorough" ? 6 : 4, "t", emit);
    if (tier == "thorough")
    {
        sequences(all, 4, "", emit);
    }
}

std::string crash_key(std::string const& c)
{
    return words(c).back();
}

using U = std::uint64_t;

struct Tracker
{
    std::vector<U> sets, ids, idxs;
};

struct Set
{
    int tracker, domain{-1};
    bool owns_tracker, owns_domain{false}, space{false};
    std::vector<double> points{};
};

template<typename V>
static auto read_all(V& v, std::size_t per) -> std::vector<U>
{
    std::vector<U> r(v.nr_arrays() * per);
    if (!r.empty())
    {
        static_cast<ldm::Array&>(v).read(r.data());
    }
    return r;
}

template<typename V, typename T>
static void append(V& v, std::vector<T> const& x, std::size_t per = 1)
{
    auto const n = v.nr_arrays();
    v.expand(x.size() / per);
    v.write(ldm::IndexRange{n, n + x.size() / per}, x.data());
}

struct Run
{
    Rec& rec;
    std::string c, path;
    std::vector<Tracker> trackers;
    std::vector<std::vector<U>> domains;
    std::vector<Set> sets;
    std::vector<U> object_ids;
    std::vector<std::unique_ptr<ldm::Dataset>> ds;
    U n{0};

    ldm::TimeConfiguration const tc{ldm::TimeDomainItemType::point};
    ldm::SpaceConfiguration const sc{ldm::Mobility::stationary, ldm::SpaceDomainItemType::point};
    ldm::Clock const clock{ldm::time::Unit::day, 2};
    lh5::Datatype const f8{lh5::native_float64};

    auto p() -> ldm::Phenomenon& { return ds.back()->phenomena()["p"]; }
    auto where(std::size_t k) -> ldm::PropertySets&
    {
        return k % 2 == 0 ? p().property_sets() : p().collection_property_sets();
    }
    auto set(std::size_t k) -> ldm::PropertySet& { return where(k)["s" + std::to_string(k)]; }

    void compare(std::string const& op)
    {
        std::string state;
        rec.expect_eq("after " + op + ": object ids", read_all(p().object_id(), 1), object_ids, c);
        for (std::size_t k = 0; k < sets.size(); ++k)
        {
            auto& s = set(k);
            auto const& m = sets[k];
            auto const& t = trackers[m.tracker];
            auto const at = c + ": set " + std::to_string(k);
            auto const key = "after " + op + ": ";
            rec.expect_eq(key + "owns_object_tracker", s.owns_object_tracker(), m.owns_tracker, at);
            rec.expect_eq(key + "has_time_domain", s.has_time_domain(), m.domain >= 0, at);
            rec.expect_eq(key + "owns_time_domain", s.owns_time_domain(), m.owns_domain, at);
            rec.expect_eq(key + "has_space_domain", s.has_space_domain(), m.space, at);
            rec.expect_eq(key + "active_set_index", read_all(s.object_tracker().active_set_index(), 1), t.sets, at);
            rec.expect_eq(key + "active_object_id", read_all(s.object_tracker().active_object_id(), 1), t.ids, at);
            rec.expect_eq(key + "active_object_index", read_all(s.object_tracker().active_object_index(), 1), t.idxs, at);
            rec.expect_eq(key + "nr_ids", s.object_tracker().active_object_id().nr_ids(), t.ids.size(), at);
            rec.expect_eq(key + "nr sets", s.object_tracker().active_set_index().nr_indices(), t.sets.size(), at);
            rec.expect_eq(key + "nr indices", s.object_tracker().active_object_index().nr_indices(), t.idxs.size(), at);
            if (m.domain >= 0 && s.has_time_domain())
            {
                auto v = s.time_domain().value<ldm::TimePoint>();
                rec.expect_eq(key + "time points", read_all(v, 1), domains[m.domain], at);
                rec.expect_eq(key + "nr_points", v.nr_points(), domains[m.domain].size(), at);
                rec.expect(key + "clock", s.time_domain().clock() == clock, at);
                rec.expect(key + "time configuration", s.time_domain().configuration() == tc, at);
            }
            if (m.space && s.has_space_domain())
            {
                auto v = s.space_domain().value<ldm::StationarySpacePoint>();
                rec.expect_eq(key + "nr points in space", v.nr_points(), m.points.size() / 2, at);
                std::vector<double> got(m.points.size());
                if (v.nr_points() * 2 == got.size() && !got.empty())
                {
                    static_cast<ldm::Array&>(v).read(got.data());
                }
                rec.expect_eq(key + "points in space", got, m.points, at);
                rec.expect(key + "space configuration", s.space_domain().configuration() == sc, at);
            }
            state += std::to_string(m.tracker) + "," + std::to_string(m.domain) + "," + std::to_string(t.ids.size()) + "," + std::to_string(t.sets.size()) + (m.space ? "s;" : ";");
        }
        rec.expect_eq("after " + op + ": number of sets", p().property_sets().size(), (sets.size() + 1) / 2, c);
        rec.expect_eq("after " + op + ": number of collection sets", p().collection_property_sets().size(), sets.size() / 2, c);
        rec.state(state);
        rec.outcome(op + state);
    }

    void step(std::string const& op)
    {
        if (op == "R")
        {
            ds.clear();
            ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
            return;
        }
        if (op == "H")
        {
            ds.push_back(std::make_unique<ldm::Dataset>(path, H5F_ACC_RDWR));
            return;
        }
        if (op == "o")
        {
            append(p().object_id(), std::vector<U>{++n});
            object_ids.push_back(n);
            return;
        }
        auto const name = "s" + std::to_string(sets.size());
        auto& to = where(sets.size());
        auto new_tracker = [&]() { trackers.emplace_back(); return static_cast<int>(trackers.size()) - 1; };
        auto new_domain = [&]() { domains.emplace_back(); return static_cast<int>(domains.size()) - 1; };
        if (op == "n") { to.add(name); sets.push_back({new_tracker(), -1, true}); return; }
        if (op == "s") { to.add(name, sc, f8, 2); sets.push_back({new_tracker(), -1, true, false, true}); return; }
        if (op == "t") { to.add(name, tc, clock); sets.push_back({new_tracker(), new_domain(), true, true}); return; }
        if (op == "ts") { to.add(name, tc, clock, sc, f8, 2); sets.push_back({new_tracker(), new_domain(), true, true, true}); return; }
        if (sets.empty())
        {
            return;
        }
        std::size_t const k = op.back() == '0' ? 0 : sets.size() - 1;
        auto& s = set(k);
        auto m = sets[k];
        if (op[0] == 'T') { to.add(name, tc, clock, s.object_tracker()); sets.push_back({m.tracker, new_domain(), false, true}); }
        else if (op[0] == 'i')
        {
            auto& t = trackers[m.tracker];
            append(s.object_tracker().active_set_index(), std::vector<U>{t.ids.size()});
            append(s.object_tracker().active_object_id(), std::vector<U>{n + 1, n + 2});
            t.sets.push_back(t.ids.size());
            t.ids.push_back(n + 1), t.ids.push_back(n + 2);
            n += 2;
        }
        else if (op[0] == 'e')
        {
            auto& t = trackers[m.tracker];
            append(s.object_tracker().active_set_index(), std::vector<U>{t.ids.size()});
            t.sets.push_back(t.ids.size());
        }
        else if (op[0] == 'j')
        {
            append(s.object_tracker().active_object_index(), std::vector<U>{n, 5});
            trackers[m.tracker].idxs.push_back(n), trackers[m.tracker].idxs.push_back(5);
        }
        else if (op[0] == 'p' && m.space)
        {
            auto v = s.space_domain().value<ldm::StationarySpacePoint>();
            append(v, std::vector<double>{0.5 + n, -1.0 * n}, 2);
            sets[k].points.insert(sets[k].points.end(), {0.5 + n, -1.0 * n});
            ++n;
        }
        else if (m.domain < 0)
        {
        }
        else if (op[0] == 'd')
        {
            auto v = s.time_domain().value<ldm::TimePoint>();
            append(v, std::vector<U>{++n});
            domains[m.domain].push_back(n);
        }
        else if (op.substr(0, 2) == "Ds") { to.add(name, s.time_domain(), sc, f8, 2); sets.push_back({new_tracker(), m.domain, true, false, true}); }
        else if (op[0] == 'D') { to.add(name, s.time_domain()); sets.push_back({new_tracker(), m.domain, true, false}); }
        else if (op.substr(0, 2) == "Bs") { to.add(name, s.time_domain(), s.object_tracker(), sc, f8, 2); sets.push_back({m.tracker, m.domain, false, false, true}); }
        else if (op[0] == 'B') { to.add(name, s.time_domain(), s.object_tracker()); sets.push_back({m.tracker, m.domain, false, false}); }
    }

    void all()
    {
        ds.push_back(std::make_unique<ldm::Dataset>(ldm::create_dataset(path)));
        ds.back()->add_phenomenon("p");
        for (auto const& op : words(c))
        {
            step(op);
            rec.trans();
            compare(op[0] == 'R' || op[0] == 'H' ? op : op.substr(0, op.size() > 1 ? op.size() - 1 : 1));
        }
        step("R");
        compare("the last reopening");
        rec.trace();
        ds.clear();
        std::filesystem::remove(path);
    }
};

void run(std::string const& c, Rec& rec)
{
    Run{rec, c, rec.scratch + "/d.lue"}.all();
}

MC_MAIN
