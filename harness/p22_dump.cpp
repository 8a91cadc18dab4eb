// Reads pathnames of datasets from standard input and writes what the C++ API says is in them
#include "values.hpp"
#include <iostream>
#include "lue/navigate.hpp"
#include "lue/validate.hpp"

using PG = ldm::PropertyGroup;

static std::string hex(void const* p, std::size_t n)
{
    static char const* d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto c = static_cast<unsigned char const*>(p)[i];
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

static std::string quoted(std::string const& s)
{
    return "'" + hex(s.data(), s.size()) + "'";
}

static void put(std::string const& k, std::string const& v)
{
    std::cout << k << "\t" << v << "\n";
}

static std::string type_name(lh5::Datatype const& dt)
{
    std::string r = "?";
    for (auto const& t : all_types)
    {
        with_type(t, [&](auto x) {
            if (lh5::Datatype{lh5::native_datatype<decltype(x)>()} == dt) r = t;
        });
    }
    if (r == "?" && dt.is_string()) r = "U";
    return r;
}

static std::string array(ldm::Array const& a)
{
    auto const t = type_name(a.memory_datatype());
    auto const shape = a.shape();
    std::string r = t + " " + show_shape(shape) + " ";
    auto const n = size_of(shape);
    if (t == "U")
    {
        r += std::to_string(n);
    }
    else if (n > 0 && t != "?")
    {
        with_type(t, [&](auto x) {
            std::vector<decltype(x)> v(n);
            a.read(v.data());
            r += hex(v.data(), v.size() * sizeof(x));
        });
    }
    return r;
}

struct Named
{
    std::string name;
    lh5::Identifier id;
};

static std::string first_same(std::vector<Named>& known, std::string const& name, lh5::Identifier const& id)
{
    for (auto const& k : known)
    {
        if (k.id == id) return k.name;
    }
    known.push_back({name, id});
    return name;
}

static void dump(std::string const& path)
{
    ldm::Dataset ds{path, H5F_ACC_RDONLY};
    put("description", quoted(ds.description()));
    put("lue_version", ds.lue_version());
    auto sorted = [](std::vector<std::string> v) {
        std::sort(v.begin(), v.end());
        std::string r;
        for (auto const& x : v) r += (r.empty() ? "" : " ") + quoted(x);
        return r;
    };
    put("universes", sorted(ds.universes().names()));
    for (auto const& u : ds.universes().names()) put("universe " + u, sorted(ds.universes()[u].phenomena().names()));
    put("phenomena", sorted(ds.phenomena().names()));
    std::vector<Named> domains, trackers, spaces;
    std::vector<Named> props;
    struct Link { std::string key; PG target; };
    std::vector<Link> links;
    std::vector<std::pair<std::string, ldm::Phenomena*>> all{{"", &ds.phenomena()}};
    auto in_order = [](auto names) {
        std::sort(names.begin(), names.end());
        return names;
    };
    for (auto const& u : in_order(ds.universes().names())) all.emplace_back(u + "!", &ds.universes()[u].phenomena());
    for (auto const& [prefix, phenomena] : all)
    for (auto const& simple_name : in_order(phenomena->names()))
    {
        auto const pn = prefix + simple_name;
        auto& p = (*phenomena)[simple_name];
        put(pn + " description", quoted(p.description()));
        put(pn + " ids", array(p.object_id()));
        std::vector<ldm::ID> ids(p.object_id().nr_objects());
        if (!ids.empty()) p.object_id().read(ids.data());
        for (bool c : {false, true})
        {
            auto& sets = c ? p.collection_property_sets() : p.property_sets();
            auto const pk = pn + (c ? "/c:" : "/p:");
            auto names = sets.names();
            std::sort(names.begin(), names.end());
            put(pk, sorted(names));
            for (auto const& sn : names)
            {
                auto& s = sets[sn];
                auto const k = pk + sn + " ";
                auto& t = s.object_tracker();
                put(k + "tracker", first_same(trackers, pk + sn, t.id()));
                put(k + "set index", array(t.active_set_index()));
                put(k + "object id", array(t.active_object_id()));
                put(k + "object index", array(t.active_object_index()));
                if (s.has_time_domain())
                {
                    auto& d = s.time_domain();
                    put(k + "time domain", first_same(domains, pk + sn, d.id()));
                    auto const& e = d.clock().epoch();
                    put(k + "clock", ldm::aspect_to_string(d.clock().unit()) + " " + std::to_string(d.clock().nr_units()) + " " + ldm::aspect_to_string(e.kind()) + " " +
                        (e.origin() ? quoted(*e.origin()) : "-") + " " + (e.calendar() ? ldm::aspect_to_string(*e.calendar()) : "-"));
                    auto const it = d.configuration().value<ldm::TimeDomainItemType>();
                    put(k + "time items", ldm::aspect_to_string(it));
                    if (it == ldm::TimeDomainItemType::point) put(k + "times", array(d.value<ldm::TimePoint>()));
                    if (it == ldm::TimeDomainItemType::box) put(k + "times", array(d.value<ldm::TimeBox>()));
                    if (it == ldm::TimeDomainItemType::cell)
                    {
                        auto v = d.value<ldm::TimeCell>();
                        put(k + "times", array(v));
                        put(k + "counts", array(v.count()));
                    }
                }
                if (s.has_space_domain())
                {
                    auto& d = s.space_domain();
                    auto const m = d.configuration().value<ldm::Mobility>();
                    auto const it = d.configuration().value<ldm::SpaceDomainItemType>();
                    put(k + "space domain", ldm::aspect_to_string(m) + " " + ldm::aspect_to_string(it));
                    bool const mobile = m == ldm::Mobility::mobile, box = it == ldm::SpaceDomainItemType::box;
                    std::string x = mobile ? (box ? array(d.value<ldm::MobileSpaceBox>()) : array(d.value<ldm::MobileSpacePoint>()))
                        : (box ? array(d.value<ldm::StationarySpaceBox>()) : array(d.value<ldm::StationarySpacePoint>()));
                    put(k + "space", x);
                    if (d.presence_is_discretized()) links.push_back({k + "presence", d.discretized_presence_property()});
                }
                auto& ps = s.properties();
                auto property = [&](auto& collection, std::string const& kind, auto&& values) {
                    auto names = collection.names();
                    std::sort(names.begin(), names.end());
                    for (auto const& xn : names)
                    {
                        auto& x = collection[xn];
                        auto const kk = k + xn + " ";
                        put(kk + "kind", kind);
                        put(kk + "description", quoted(x.description()));
                        props.push_back({pk + sn + " " + xn, x.id()});
                        values(x, kk);
                        if (x.time_is_discretized()) links.push_back({kk + "time discretization", x.time_discretization_property()});
                        if (x.space_is_discretized()) links.push_back({kk + "space discretization", x.space_discretization_property()});
                        // An absolute path finds the property. The name of a collection property set is tried first.
                        if (prefix.empty() && (c || !p.collection_property_sets().contains(sn)))
                        {
                            if (!(ldm::property(x, "/" + pn + "/" + sn + "/" + xn).id() == x.id())) put(kk + "navigation", "other property");
                            if (!(ldm::property_set(x).id() == s.id())) put(kk + "navigation", "other set");
                            if (!ldm::property_sets(x).contains(sn)) put(kk + "navigation", "other sets");
                        }
                    }
                };
                auto group = [&](auto& v, std::string const& kk) {
                    put(kk + "type", type_name(v.memory_datatype()));
                    put(kk + "rank", std::to_string(v.rank()));
                };
                property(ps.collection<ldm::same_shape::Properties>(), "ss", [&](auto& x, auto const& kk) {
                    put(kk + "values", array(x.value()));
                    put(kk + "shape", show_shape(x.value().array_shape()));
                });
                property(ps.collection<ldm::same_shape::constant_shape::Properties>(), "sscs", [&](auto& x, auto const& kk) {
                    put(kk + "values", array(x.value()));
                    put(kk + "shape", show_shape(x.value().array_shape()));
                });
                property(ps.collection<ldm::same_shape::variable_shape::Properties>(), "ssvs", [&](auto& x, auto const& kk) {
                    group(x.value(), kk);
                    put(kk + "locations", std::to_string(x.value().nr_locations_in_time()));
                    for (ldm::Index i = 0; i < x.value().nr_locations_in_time(); ++i) put(kk + "values " + std::to_string(i), array(x.value()[i]));
                });
                property(ps.collection<ldm::different_shape::Properties>(), "ds", [&](auto& x, auto const& kk) {
                    group(x.value(), kk);
                    put(kk + "objects", std::to_string(x.value().nr_objects()));
                    for (auto id : ids)
                        if (x.value().contains(id)) put(kk + "values " + std::to_string(id), array(x.value()[id]));
                });
                property(ps.collection<ldm::different_shape::constant_shape::Properties>(), "dscs", [&](auto& x, auto const& kk) {
                    group(x.value(), kk);
                    put(kk + "objects", std::to_string(x.value().nr_objects()));
                    for (auto id : ids)
                        if (x.value().exists(id)) put(kk + "values " + std::to_string(id), array(x.value()[id]));
                });
                property(ps.collection<ldm::different_shape::variable_shape::Properties>(), "dsvs", [&](auto& x, auto const& kk) {
                    group(x.value(), kk);
                    auto const n = x.value().nr_locations_in_time();
                    put(kk + "locations", std::to_string(n));
                    for (ldm::Index i = 0; i < n; ++i)
                    {
                        auto v = x.value()[i];
                        put(kk + "objects " + std::to_string(i), std::to_string(v.nr_objects()));
                        // The objects active at a location in time are tracked
                        std::vector<ldm::Index> first(t.active_set_index().nr_indices());
                        if (!first.empty()) t.active_set_index().read(first.data());
                        std::vector<ldm::ID> active(t.active_object_id().nr_ids());
                        if (!active.empty()) t.active_object_id().read(active.data());
                        for (std::size_t j = i < first.size() ? first[i] : 0; i < first.size() && j < (i + 1 < first.size() ? first[i + 1] : active.size()); ++j)
                            if (v.contains(active[j])) put(kk + "values " + std::to_string(i) + " " + std::to_string(active[j]), array(v[active[j]]));
                    }
                });
            }
        }
    }
    for (auto const& l : links)
    {
        std::string target = "?";
        for (auto const& p : props)
        {
            if (p.id == l.target.id()) target = p.name;
        }
        put(l.key, target);
    }
}

int main()
{
    std::string path;
    while (std::getline(std::cin, path))
    {
        try
        {
            dump(path);
        }
        catch (std::exception const& e)
        {
            std::string m = e.what();
            std::replace(m.begin(), m.end(), '\n', ' ');
            put("exception", m);
        }
        std::cout << "END" << std::endl;
    }
}
