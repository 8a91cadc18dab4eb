// P14: validation reports the inconsistencies of a dataset, all of them, and nothing else
#include "values.hpp"
#include "lue/validate.hpp"

using namespace mc;

// case: <what> key=values ...
//   sets, ids, idxs    contents of the object tracker        oid   object ids of the phenomenon
//   v     a property: kind:n,n,..  ss:<arrays> ds:<ids> sscs:<arrays> dscs:<id.arrays,..> ssvs:<arrays,..> dsvs:<nr locations>
//   t     time domain p|b|c:<coordinates>[:<counts>]
//   s     space domain sp|sb|mp|mb:<items>
//   c     collection property set     m  messages      f  files
//   g     space discretization: <kind of property>:<kind of discretization>:<type>:<arrays>[:c]
//   r     presence discretization
//   x     what the digits of ids and coordinates stand for: 0 themselves, 1, 2 large numbers
// All contents are sequences of digits, or of letters for some large numbers

static auto seqs(int alphabet, int length, int base = 0) -> std::vector<std::string>
{
    std::vector<std::string> r{""};
    std::vector<std::string> level{""};
    for (int i = 0; i < length; ++i)
    {
        std::vector<std::string> next;
        for (auto const& s : level)
        {
            for (int a = base; a < base + alphabet; ++a) next.push_back(s + static_cast<char>('0' + a));
        }
        r.insert(r.end(), next.begin(), next.end());
        level = next;
    }
    return r;
}

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    auto tracker = [](std::string const& sets, std::string const& ids, std::string const& idxs, std::string const& oid) {
        return "sets=" + sets + " ids=" + ids + " idxs=" + idxs + " oid=" + oid;
    };
    emit("f");
    // Object tracking, on its own
    for (auto const& sets : seqs(3, deep ? 4 : 3))
    {
        for (auto const& ids : seqs(deep ? 3 : 2, 3, 1))
        {
            for (std::string idxs : {"", "0", "00", "001", "0011"})
            {
                if (!deep && sets.size() == 3 && (idxs.size() == 1 || idxs.size() > ids.size())) continue;
                for (std::string oid : {"", "1", "12", "121", "321"}) emit("T " + tracker(sets, ids, idxs, oid));
            }
        }
    }
    // Properties, with consistent and inconsistent trackers
    struct Tr { std::string sets, ids, idxs, oid; };
    std::vector<Tr> trs{{"", "", "", ""}, {"", "", "", "1"}, {"", "", "", "12"}, {"", "", "", "12312"}, {"0", "", "", ""}, {"0", "1", "0", ""},
        {"0", "1", "0", "1"}, {"0", "12", "00", "12"}, {"01", "12", "00", ""}, {"01", "11", "01", "1"}, {"02", "1212", "0011", "12"},
        {"013", "1121", "0102", "12"}, {"00", "12", "00", "12"}, {"02", "12", "00", ""}, {"0", "1", "", ""}, {"0", "12", "0", ""}, {"01", "12", "", "12"},
        {"0", "123", "0", "123"}, {"0", "1", "1", ""}, {"01", "11", "00", ""}, {"02", "1212", "0012", ""}, {"01", "11", "10", ""}, {"1", "12", "00", ""},
        {"0", "1", "00", ""}, {"012", "123", "000", "321"}};
    for (auto const& t : trs)
    {
        for (std::string where : {"V ", "C "})
        {
            auto const base = where + tracker(t.sets, t.ids, t.idxs, t.oid) + " v=";
            for (int n = 0; n <= 5; ++n) emit(base + "ss:" + std::to_string(n)), emit(base + "sscs:" + std::to_string(n));
            for (auto const& s : {"", "1", "2", "12", "21", "13", "123", "231", "124"}) emit(base + "ds:" + s);
            for (auto const& s : {"", "10", "11", "12", "21", "10,21", "11,20", "11,21", "12,21", "12,22", "11,22", "13,21", "11,31", "11,21,31", "31,11,21", "12,21,30"})
                emit(base + "dscs:" + s);
            for (auto const& s : seqs(4, deep ? 4 : 3)) emit(base + "ssvs:" + s);
            for (int n = 0; n <= 4; ++n) emit(base + "dsvs:" + std::to_string(n));
        }
    }
    // Time domains
    std::vector<std::string> tops{"", "0", "00", "000", "0000"};
    for (auto const& t : tops)
    {
        auto const base = "D " + tracker(t, "", "", "") + " t=";
        for (auto const& s : seqs(3, deep ? 5 : 4)) emit(base + "p:" + s);
        for (auto const& s : seqs(3, deep ? 6 : 4)) if (s.size() % 2 == 0) emit(base + "b:" + s);
        for (std::string s : {"0123", "0011", "0122", "001122", "0110", "1001", "012301", "01", "10", ""}) emit(base + "b:" + s);
        for (std::string s : {"", "01", "0112", "0012", "0102", "1001", "011223"})
        {
            for (auto const& counts : seqs(4, deep ? 4 : 3)) emit(base + "c:" + s + ":" + counts);
        }
    }
    // Space domains
    for (auto const& t : trs)
    {
        for (std::string k : {"sp", "sb", "mp", "mb"})
        {
            for (int n = 0; n <= 6; ++n)
            {
                emit("S " + tracker(t.sets, t.ids, t.idxs, t.oid) + " s=" + k + ":" + std::to_string(n));
                emit("S " + tracker(t.sets, t.ids, t.idxs, t.oid) + " v=ss:" + std::to_string(n / 2) + " s=" + k + ":" + std::to_string(n));
            }
        }
    }
    // Large numbers
    for (std::string x : {" x=1", " x=2"})
    {
        for (auto const& t : trs)
        {
            auto const base = tracker(t.sets, t.ids, t.idxs, t.oid);
            emit("T " + base + x);
            for (auto const& s : {"", "1", "12", "21", "13", "123", "231"}) emit("V " + base + " v=ds:" + s + x);
            for (auto const& s : {"", "10", "11", "12", "11,21", "12,21", "12,22", "11,22", "11,31", "11,21,31"}) emit("V " + base + " v=dscs:" + s + x);
        }
        for (std::string ids : {"11", "22", "13", "31", "23", "123", "321"}) for (std::string oid : {"", "1", "2", "12", "21", "13", "31", "123", "321", "131"}) emit("T " + tracker("0", ids, "", oid) + x);
        for (std::string t : {"00", "000"})
        {
            auto const base = "D " + tracker(t, "", "", "") + " t=";
            for (auto const& s : seqs(4, 3)) emit(base + "p:" + s + x);
            for (auto const& s : seqs(4, 4)) if (s.size() == 4) emit(base + "b:" + s + x), emit(base + "c:" + s + ":12" + x);
        }
    }
    for (std::string t : {"", "0", "00", "000"})
    {
        auto const base = "D " + tracker(t, "", "", "") + " t=c:";
        for (char a : std::string("0123ABCD"))
        {
            emit(base + "01:" + a);
            for (char b : std::string("0123ABCD")) if (!(a == 'C' && b == 'C')) emit(base + "0123:" + a + b);
        }
    }
    for (char a : std::string("012ABCD"))
    {
        for (char b : std::string("012ABCD"))
        {
            for (auto const& t : trs) if (t.sets.size() < 2) emit("T " + tracker(std::string(1, a) + b, t.ids, t.idxs, t.oid));
        }
    }
    // Two properties: both are looked at
    for (std::string a : {"ss:2", "ss:3", "ds:12", "ds:1", "sscs:4", "sscs:3", "dscs:12,22", "dscs:12", "dscs:11,22", "ssvs:22", "ssvs:2", "ssvs:21", "dsvs:2", "dsvs:1"})
    {
        for (std::string b : {"ss:2", "ss:3", "ds:12", "ds:1", "sscs:4", "sscs:3", "dscs:12,22", "dscs:11,22", "ssvs:22", "ssvs:12", "dsvs:2"})
        {
            emit("V " + tracker("02", "1212", "0011", "12") + " v=" + a + " w=" + b);
            emit("D " + tracker("02", "1212", "0011", "12") + " v=" + a + " w=" + b + " t=p:01");
            emit("D " + tracker("02", "1212", "0011", "12") + " v=" + a + " w=" + b + " t=p:10 s=mp:4");
        }
    }
    // Discretization
    for (std::string k : {"ds", "sscs", "dscs", "ss", "ssvs", "dsvs"})
    {
        for (std::string d : {"ss", "ds", "sscs"})
        {
            for (std::string type : {"u4", "u8", "i4", "f8", "u1", "i8", "u2"})
            {
                for (int n = 0; n <= 3; ++n)
                {
                    emit("G g=" + k + ":" + d + ":" + type + ":" + std::to_string(n));
                    emit("G g=" + k + ":" + d + ":" + type + ":" + std::to_string(n) + ":c");
                }
            }
        }
    }
    for (std::string mob : {"sb", "sp", "mb", "mp"})
    {
        for (std::string other : {"ss", "sscs-same", "sscs-other", "sscs-none"}) emit("R r=" + mob + ":" + other);
    }
    for (int i = 0; i < 4; ++i)
    {
        for (auto const& s : seqs(2, deep ? 8 : 5)) emit("m m=" + std::to_string(i) + ":" + s);
    }
}

std::string crash_key(std::string const& c)
{
    auto const w = words(c);
    auto const v = w.size() > 5 ? w[5] : w.size() == 2 ? w[1] : "";
    return w[0] + " " + v.substr(0, v.find(':'));
}

using U = std::uint64_t;
using Map = std::map<std::string, std::string>;

static int magnitude = 0;

// Ids and coordinates: same order as the digits, but not so if only some of the bits are looked at
static auto large(U d) -> U
{
    return magnitude == 1 ? (d << 32) | (9 - d) : magnitude == 2 ? (d << 62) | (9 - d) : d;
}

static auto numbers(std::string const& s) -> std::vector<U>
{
    std::vector<U> r;
    for (char ch : s) r.push_back(ch == 'A' ? U{1} << 32 : ch == 'B' ? (U{1} << 32) + 1 : ch == 'C' ? (U{1} << 63) + 2 : ch == 'D' ? U{1} << 31 : ch - '0');
    return r;
}

static auto large_numbers(std::string const& s) -> std::vector<U>
{
    auto r = numbers(s);
    for (auto& x : r) x = large(x);
    return r;
}

template<typename V>
static void store(V&& v, std::vector<U> const& x)
{
    v.expand(x.size());
    if (!x.empty()) v.write(ldm::IndexRange{0, x.size()}, x.data());
}

static lh5::Datatype const i4{lh5::native_int32};

static auto pairs(std::string const& s) -> std::map<U, U>
{
    std::map<U, U> r;
    if (!s.empty()) for (auto const& w : words(s, ',')) r[large(w[0] - '0')] = w[1] - '0';
    return r;
}

static void add_property(ldm::PropertySet& set, std::string const& name, std::string const& spec)
{
    auto& p = set.properties();
    auto const w = words(spec, ':');
    auto const& k = w[0];
    if (k == "ss") p.add<ldm::same_shape::Property>(name, i4).value().expand(std::stoul(w[1]));
    if (k == "sscs") p.add<ldm::same_shape::constant_shape::Property>(name, i4, Shape{2}).value().expand(std::stoul(w[1]));
    if (k == "ds")
    {
        auto& v = p.add(name, i4, ldm::Rank{1}).value();
        for (U id : large_numbers(w[1]))
        {
            lh5::Shape const s{1 + id % 7};
            v.expand(id, s);
        }
    }
    if (k == "dscs")
    {
        auto& v = p.add<ldm::different_shape::constant_shape::Property>(name, i4, ldm::Rank{1}).value();
        for (auto const& [id, n] : pairs(w[1]))
        {
            v.expand(id, Shape{1 + id % 7}, n);
        }
    }
    if (k == "ssvs")
    {
        auto& v = p.add<ldm::same_shape::variable_shape::Property>(name, i4, ldm::Rank{1}).value();
        U i = 0;
        for (U n : numbers(w[1])) v.expand(i, n, Shape{1 + i}), ++i;
    }
    if (k == "dsvs")
    {
        auto& v = p.add<ldm::different_shape::variable_shape::Property>(name, i4, ldm::Rank{1}).value();
        for (U i = 0; i < std::stoul(w[1]); ++i)
        {
            ldm::ID const id = 1;
            Shape const shape{2};
            v.expand(i, 1, &id, &shape);
        }
    }
}

// What is wrong, according to the rules
struct Rules
{
    std::vector<U> sets, ids, idxs, oid;
    std::set<std::string> errors{};
    bool warning{false};

    auto unique(std::vector<U> const& v) -> bool { return std::set<U>(v.begin(), v.end()).size() == v.size(); }

    void tracker()
    {
        if (!unique(oid)) errors.insert("object ids are not unique");
        if (sets.empty() && !ids.empty()) errors.insert("ids without sets");
        if (sets.empty() && !idxs.empty()) errors.insert("indices without sets");
        auto const in_order = std::is_sorted(sets.begin(), sets.end());
        if (!in_order) errors.insert("sets are not increasing");
        if (!sets.empty() && *std::max_element(sets.begin(), sets.end()) > ids.size()) errors.insert("a set starts after the last id");
        if (!sets.empty() && !idxs.empty() && *std::max_element(sets.begin(), sets.end()) > idxs.size()) errors.insert("a set starts after the last index");
        if (in_order)
        {
            for (std::size_t i = 0; i < sets.size(); ++i)
            {
                auto const s = set(i);
                if (!unique(s)) errors.insert("an object is twice in a set");
            }
        }
        if (!oid.empty())
        {
            for (U id : ids) if (std::ranges::find(oid, id) == oid.end()) errors.insert("an active object does not exist");
        }
    }
    auto set(std::size_t i) -> std::vector<U>
    {
        U const b = std::min<U>(sets[i], ids.size());
        U const e = std::min<U>(i + 1 < sets.size() ? sets[i + 1] : ids.size(), ids.size());
        return {ids.begin() + b, ids.begin() + std::max(b, e)};
    }
    void property(std::string const& spec)
    {
        auto const w = words(spec, ':');
        auto const& k = w[0];
        if (k == "ss" && std::stoul(w[1]) != oid.size()) errors.insert("ss");
        if (k == "sscs" && std::stoul(w[1]) != ids.size()) errors.insert("sscs");
        if (k == "ds")
        {
            auto const n = large_numbers(w[1]);
            std::set<U> const a(n.begin(), n.end()), b(oid.begin(), oid.end());
            if (a != b || n.size() != oid.size()) errors.insert("ds");
        }
        if (k == "dscs")
        {
            auto const m = pairs(w[1]);
            std::set<U> const objects(ids.begin(), ids.end());
            bool ok = m.size() == objects.size();
            for (U id : objects) ok = ok && m.contains(id);
            if (ids.size() != idxs.size()) ok = false;   // It is not known where the arrays of the objects are
            if (ok)
            {
                for (std::size_t i = sets.empty() ? 0 : sets[0]; i < ids.size(); ++i) ok = ok && idxs[i] < m.at(ids[i]);
            }
            if (!ok) errors.insert("dscs");
        }
        if (k == "ssvs")
        {
            auto const n = numbers(w[1]);
            bool ok = n.size() == sets.size();
            for (std::size_t i = 0; ok && i < n.size(); ++i)
            {
                U const e = i + 1 < sets.size() ? sets[i + 1] : ids.size();
                ok = n[i] == e - sets[i];
            }
            if (!ok) errors.insert("ssvs");
        }
        if (k == "dsvs")
        {
            if (std::stoul(w[1]) != sets.size()) errors.insert("dsvs");
            else warning = true;   // Contents of these are not looked at, which is reported
        }
    }
    void time(std::string const& spec)
    {
        auto const w = words(spec, ':');
        auto const n = large_numbers(w[1]);
        if (!std::is_sorted(n.begin(), n.end())) errors.insert("time is not increasing");
        if (w[0] == "p" && n.size() != sets.size()) errors.insert("points");
        if (w[0] == "b" && n.size() / 2 != sets.size()) errors.insert("boxes");
        if (w[0] == "c")
        {
            auto const counts = numbers(w[2]);
            if (counts.size() != n.size() / 2) errors.insert("counts");
            else if (std::accumulate(counts.begin(), counts.end(), U{0}) != sets.size()) errors.insert("cells");
        }
    }
    void space(std::string const& spec)
    {
        auto const w = words(spec, ':');
        if (std::stoul(w[1]) != (w[0][0] == 's' ? oid.size() : ids.size())) errors.insert("space");
    }
};

static auto starts(std::string const& s, std::string const& p) -> bool
{
    return s.compare(0, p.size(), p) == 0;
}

// The message mentions each issue, errors first
static void check_message(Rec& rec, lh5::Issues const& issues, std::string const& c, std::string const& key)
{
    auto const text = ldm::message(issues);
    auto const n = issues.errors().size() + issues.warnings().size();
    std::size_t lines = 0;
    for (auto const& l : words(text, '\n')) lines += starts(l, "- [") ? 1 : 0;
    rec.expect_eq(key + "number of messages", lines, n, c + text);
    for (std::size_t i = 1; i <= n; ++i)
    {
        rec.expect(key + "numbers", text.find("- [" + std::to_string(i) + "/" + std::to_string(n) + "] ") != std::string::npos, c + text);
    }
    // The lines of an object follow its path
    std::map<std::string, std::multiset<std::string>> want, got;
    for (auto const& e : issues.errors()) want[e.id().pathname()].insert("error: " + e.message());
    for (auto const& e : issues.warnings()) want[e.id().pathname()].insert("warning: " + e.message());
    std::string path;
    int last = 0;
    std::set<std::string> done;
    for (auto const& l : words(text, '\n'))
    {
        if (l.empty()) continue;
        if (starts(l, "- ["))
        {
            auto const m = l.substr(l.find("] ") + 2);
            got[path].insert(m);
        }
        else
        {
            path = l.substr(0, l.size() - 1);
            rec.expect(key + "an object is mentioned twice", done.insert(path).second, c + text);
            int const kind = std::ranges::any_of(issues.errors(), [&](auto const& e) { return e.id().pathname() == path; }) ? 0 : 1;
            rec.expect(key + "warnings before errors", kind >= last, c + text);
            last = kind;
        }
    }
    rec.expect(key + "messages", got == want, c + text);
}

struct Case
{
    Rec& rec;
    std::string c, what, path;
    Map m;

    Case(Rec& r, std::string const& text): rec{r}, c{text}, path{r.scratch + "/v.lue"}
    {
        auto w = words(text);
        what = w[0];
        for (std::size_t i = 1; i < w.size(); ++i) m[w[i].substr(0, w[i].find('='))] = w[i].substr(w[i].find('=') + 1);
    }

    ldm::Clock const clock{ldm::time::Unit::day, 1};

    // The same questions, asked in all ways
    void verdict(bool errors, bool warnings, std::string const& place, std::string const& why)
    {
        lh5::Issues by_name;
        ldm::validate(path, by_name);
        auto const key = what + " " + (m.contains("v") ? m["v"].substr(0, m["v"].find(':')) : "") + ": ";
        std::string first = by_name.errors_found() ? by_name.errors()[0].message() : "none";
        rec.expect_eq(key + (errors ? "an error is missed" : "a valid dataset is rejected"), by_name.errors_found(), errors, c + " (" + why + "; " + first + ")");
        rec.expect_eq(key + "warnings", by_name.warnings_found(), warnings, c);
        rec.expect(key + "collections", by_name.errors_found() == !by_name.errors().empty() && by_name.warnings_found() == !by_name.warnings().empty(), c);
        for (auto const& e : by_name.errors())
        {
            rec.expect(key + "error about something else", starts(e.id().pathname(), place), c + ": " + e.id().pathname());
        }
        for (auto const& e : by_name.warnings())
        {
            rec.expect(key + "warning about something else", starts(e.id().pathname(), place), c + ": " + e.id().pathname());
        }
        check_message(rec, by_name, c, key);
        lh5::Issues by_file, by_dataset;
        lh5::File const f{path};
        ldm::validate(f, by_file);
        ldm::Dataset const d{path};
        ldm::validate(d, by_dataset);
        auto text = [](lh5::Issues const& i) { return ldm::message(i); };
        rec.expect(key + "the way it is asked", text(by_file) == text(by_name) && text(by_dataset) == text(by_name), c);
        for (bool strict : {false, true})
        {
            bool const ok = !errors && !(strict && warnings);
            std::string said;
            rec.expect_eq(key + "assert_is_valid", succeeds([&]() { ldm::assert_is_valid(path, strict); }, &said), ok, c);
            if (!ok && by_name.errors_found() == errors) rec.expect(key + "text of assert_is_valid", starts(said, text(by_name)) , c + said);
            rec.expect_eq(key + "assert_is_valid of a file", succeeds([&]() { ldm::assert_is_valid(f, strict); }), ok, c);
            rec.expect_eq(key + "assert_is_valid of a dataset", succeeds([&]() { ldm::assert_is_valid(d, strict); }), ok, c);
        }
        rec.state(c), rec.outcome(why + first);
        rec.trans(11), rec.trace();
    }

    // A phenomenon nothing is wrong with
    static void healthy(ldm::Dataset& d)
    {
        auto& p = d.add_phenomenon("healthy");
        store(p.object_id(), {5, 7});
        auto& s = p.property_sets().add("s");
        add_property(s, "a", "ss:2");
        p.collection_property_sets().add("c");
    }

    static void healthy_after(ldm::Dataset& d)
    {
        auto& u = d.add_universe("z").add_phenomenon("healthy");
        store(u.object_id(), {1});
    }

    void consistency()
    {
        bool const collection = what == "C";
        bool const in_universe = c.size() % 2 == 1;
        magnitude = m.contains("x") ? std::stoi(m["x"]) : 0;
        Rules r{numbers(m["sets"]), large_numbers(m["ids"]), numbers(m["idxs"]), large_numbers(m["oid"])};
        {
            auto d = ldm::create_dataset(path);
            healthy(d);
            auto& p = in_universe ? d.add_universe("u").add_phenomenon("p") : d.add_phenomenon("p");
            store(p.object_id(), r.oid);
            auto& sets = collection ? p.collection_property_sets() : p.property_sets();
            auto add = [&]() -> ldm::PropertySet& {
                using T = ldm::TimeDomainItemType;
                using I = ldm::SpaceDomainItemType;
                bool const t = m.contains("t"), s = m.contains("s");
                auto const tw = t ? words(m["t"], ':') : std::vector<std::string>{"p"};
                auto const sw = s ? words(m["s"], ':') : std::vector<std::string>{"sp"};
                ldm::TimeConfiguration const tc{tw[0] == "p" ? T::point : tw[0] == "b" ? T::box : T::cell};
                ldm::SpaceConfiguration const sc{sw[0][0] == 'm' ? ldm::Mobility::mobile : ldm::Mobility::stationary, sw[0][1] == 'p' ? I::point : I::box};
                if (t && s) return sets.add("s", tc, clock, sc, i4, 2);
                if (t) return sets.add("s", tc, clock);
                if (s) return sets.add("s", sc, i4, 2);
                return sets.add("s");
            };
            auto& s = add();
            store(s.object_tracker().active_set_index(), r.sets);
            store(s.object_tracker().active_object_id(), r.ids);
            store(s.object_tracker().active_object_index(), r.idxs);
            if (m.contains("v")) add_property(s, "v", m["v"]);
            if (m.contains("w")) add_property(s, "w", m["w"]);
            if (m.contains("t"))
            {
                auto const w = words(m["t"], ':');
                auto const n = large_numbers(w[1]);
                std::vector<U> x(n.begin(), n.end());
                auto put = [&](auto&& v, std::size_t per) {
                    v.expand(x.size() / per);
                    if (!x.empty()) v.write(ldm::IndexRange{0, x.size() / per}, x.data());
                };
                if (w[0] == "p") put(s.time_domain().value<ldm::TimePoint>(), 1);
                if (w[0] == "b") put(s.time_domain().value<ldm::TimeBox>(), 2);
                if (w[0] == "c")
                {
                    auto v = s.time_domain().value<ldm::TimeCell>();
                    put(v, 2);
                    store(v.count(), numbers(w[2]));
                }
            }
            if (m.contains("s"))
            {
                auto const w = words(m["s"], ':');
                auto& d2 = s.space_domain();
                auto const n = std::stoul(w[1]);
                if (w[0] == "sp") d2.value<ldm::StationarySpacePoint>().expand(n);
                if (w[0] == "sb") d2.value<ldm::StationarySpaceBox>().expand(n);
                if (w[0] == "mp") d2.value<ldm::MobileSpacePoint>().expand(n);
                if (w[0] == "mb") d2.value<ldm::MobileSpaceBox>().expand(n);
            }
            healthy_after(d);
        }
        if (collection)
        {
            // The collection is the only object. Its id is the one in the tracker.
            r.oid = {r.ids.empty() ? 999 : r.ids[0]};
        }
        r.tracker();
        if (r.errors.empty())
        {
            if (m.contains("v")) r.property(m["v"]);
            if (m.contains("w")) r.property(m["w"]);
            if (m.contains("t")) r.time(m["t"]);
            if (m.contains("s")) r.space(m["s"]);
        }
        if (collection && m.contains("v"))
        {
            auto const k = m["v"].substr(0, m["v"].find(':'));
            if ((k == "sscs" || k == "ssvs" || k == "dscs") && r.sets.size() != r.ids.size()) r.errors.insert("a set of more than the collection");
        }
        std::string why;
        for (auto const& e : r.errors) why += e + ", ";
        verdict(!r.errors.empty(), r.warning, std::string(in_universe ? "/lue_universes/u" : "") + "/lue_phenomena/p", why);
        std::filesystem::remove(path);
    }

    // A property discretized by another one
    void discretization()
    {
        auto const w = words(m["g"], ':');
        bool const collection = w.size() > 4;
        auto const n = std::stoul(w[3]);
        // Two objects, active in two sets
        {
            auto d = ldm::create_dataset(path);
            healthy(d);
            auto& p = d.add_phenomenon("p");
            store(p.object_id(), {1, 2});
            auto& s = p.property_sets().add("s");
            std::string const spec = w[0] == "ss" ? "ss:2" : w[0] == "ds" ? "ds:12" : w[0] == "sscs" ? "sscs:4" : w[0] == "dscs" ? "dscs:12,22" : w[0] == "ssvs" ? "ssvs:22" : "dsvs:2";
            store(s.object_tracker().active_set_index(), {0, 2});
            store(s.object_tracker().active_object_id(), {1, 2, 1, 2});
            store(s.object_tracker().active_object_index(), {0, 0, 1, 1});
            add_property(s, "v", spec);
            auto& other = collection ? p.collection_property_sets().add("c") : s;
            ldm::PropertyGroup* discretization = nullptr;
            with_type(w[2], [&]<typename T>(T) {
                lh5::Datatype const dt{lh5::native_datatype<T>()};
                if (w[1] == "ss")
                {
                    auto& x = other.properties().add<ldm::same_shape::Property>("d", dt, Shape{1});
                    x.value().expand(n);
                    discretization = &x;
                }
                if (w[1] == "ds")
                {
                    auto& x = other.properties().add("d", dt, ldm::Rank{1});
                    for (U id = 1; id <= n; ++id)
                    {
                        lh5::Shape const shape{2};
                        x.value().expand(id, shape);
                    }
                    discretization = &x;
                }
                if (w[1] == "sscs")
                {
                    auto& x = other.properties().add<ldm::same_shape::constant_shape::Property>("d", dt, Shape{1});
                    x.value().expand(n);
                    discretization = &x;
                }
            });
            auto set = [&](auto& collection_) { collection_["v"].set_space_discretization(ldm::SpaceDiscretization::regular_grid, *discretization); };
            auto& props = s.properties();
            if (w[0] == "ss") set(props.collection<ldm::same_shape::Properties>());
            if (w[0] == "ds") set(props.collection<ldm::different_shape::Properties>());
            if (w[0] == "sscs") set(props.collection<ldm::same_shape::constant_shape::Properties>());
            if (w[0] == "dscs") set(props.collection<ldm::different_shape::constant_shape::Properties>());
            if (w[0] == "ssvs") set(props.collection<ldm::same_shape::variable_shape::Properties>());
            if (w[0] == "dsvs") set(props.collection<ldm::different_shape::variable_shape::Properties>());
        }
        bool error = false, warning = false;
        std::string why;
        auto rule = [&](bool broken, std::string const& text) { if (broken) error = true, why += text + ", "; };
        // The discretization property itself
        if (w[1] == "ss") rule(n != (collection ? 1 : 2), "counts");
        if (w[1] == "ds") rule(n != (collection ? 1 : 2) || collection, "counts");   // The id of the collection is not 1
        if (w[1] == "sscs") rule(n != (collection ? 0 : 4), "counts");
        // What is looked at
        if (w[0] == "ss" || w[0] == "ssvs") warning = true;
        if (w[0] == "dsvs") warning = true;
        if (w[0] == "ds" || w[0] == "dscs" || w[0] == "sscs")
        {
            if (w[1] == "sscs")
            {
                if (w[0] == "sscs") warning = true;
                else rule(true, "variable discretization");
            }
            else
            {
                rule(w[1] == "ds", "a grid of different shapes");
                if (w[1] == "ss")
                {
                    rule(w[2][0] != 'u', "not unsigned");
                    if (collection || w[0] == "sscs") rule(n != 1, "must be one");
                    else rule(n != 2, "must be one per object");
                }
            }
        }
        verdict(error, warning, "/lue_phenomena/p", why);
        std::filesystem::remove(path);
    }

    void presence()
    {
        auto const w = words(m["r"], ':');
        using I = ldm::SpaceDomainItemType;
        {
            auto d = ldm::create_dataset(path);
            auto& p = d.add_phenomenon("p");
            ldm::TimeConfiguration const tc{ldm::TimeDomainItemType::point};
            ldm::SpaceConfiguration const sc{w[0][0] == 'm' ? ldm::Mobility::mobile : ldm::Mobility::stationary, w[0][1] == 'p' ? I::point : I::box};
            auto& s = p.property_sets().add("s", tc, clock, sc, i4, 2);
            ldm::PropertyGroup* q = nullptr;
            if (w[1] == "ss") q = &p.property_sets().add("o", s.time_domain()).properties().add<ldm::same_shape::Property>("q", i4);
            if (w[1] == "sscs-same") q = &p.property_sets().add("o", s.time_domain()).properties().add<ldm::same_shape::constant_shape::Property>("q", i4);
            if (w[1] == "sscs-other") q = &p.property_sets().add("o", tc, clock).properties().add<ldm::same_shape::constant_shape::Property>("q", i4);
            if (w[1] == "sscs-none") q = &p.property_sets().add("o").properties().add<ldm::same_shape::constant_shape::Property>("q", i4);
            s.space_domain().set_presence_discretization(*q);
            // Everything is there, for no objects
        }
        bool error = false, warning = false;
        if (w[0][1] == 'p') error = true;
        else if (w[0][0] == 'm') warning = true;
        else if (w[1] == "ss") warning = true;
        else if (w[1] == "sscs-other") error = true;
        verdict(error, warning, "/lue_phenomena/p", m["r"]);
        std::filesystem::remove(path);
    }

    // Collecting and printing issues
    void messages()
    {
        auto const w = words(m["m"], ':');
        int const mode = std::stoi(w[0]);
        auto f = lh5::create_file(rec.scratch + "/m.h5");
        std::vector<lh5::Group> g;
        g.push_back(lh5::create_group(f, "x"));
        g.push_back(lh5::create_group(f, "y"));
        lh5::Issues issues;
        std::vector<std::string> e, v;
        rec.expect("m: empty", !issues.errors_found() && !issues.warnings_found() && ldm::message(issues).empty(), c);
        int i = 0;
        for (U x : numbers(w[1]))
        {
            auto const text = "t" + std::to_string(i / (mode == 3 ? 2 : 1));
            // mode 0: kind by number; 1: object by number; 2: the other way around; 3: alternating
            bool const is_error = mode == 0 ? x == 0 : mode == 1 ? i % 2 == 0 : mode == 2 ? i % 3 == 0 : x == 1;
            auto const& id = g[mode == 0 || mode == 3 ? i % 2 : x].id();
            if (is_error) issues.add_error(id, text), e.push_back(text + id.pathname());
            else issues.add_warning(id, text), v.push_back(text + id.pathname());
            ++i;
        }
        auto list = [](auto const& c) { std::vector<std::string> r; for (auto const& x : c) r.push_back(x.message() + x.id().pathname()); return r; };
        rec.expect_eq("m: errors", list(issues.errors()), e, c);
        rec.expect_eq("m: warnings", list(issues.warnings()), v, c);
        rec.expect("m: found", issues.errors_found() == !e.empty() && issues.warnings_found() == !v.empty(), c);
        check_message(rec, issues, c, "m: ");
        auto const copy = issues;
        rec.expect("m: copy", ldm::message(copy) == ldm::message(issues), c);
        rec.trans(i), rec.trace(), rec.state(c), rec.outcome(ldm::message(issues));
    }

    void files()
    {
        auto const dir = rec.scratch;
        rec.expect("f: missing file", !succeeds([&]() { ldm::assert_is_valid(dir + "/none"); }) &&
            !succeeds([&]() { lh5::Issues i; ldm::validate(dir + "/none", i); }), c);
        std::ofstream(dir + "/text") << "text";
        rec.expect("f: text", !succeeds([&]() { ldm::assert_is_valid(dir + "/text"); }), c);
        lh5::create_file(dir + "/empty.h5");
        lh5::Issues i;
        ldm::validate(dir + "/empty.h5", i);
        rec.expect("f: HDF5 file which is not a dataset", i.errors_found(), c);
        rec.expect("f: HDF5 file which is not a dataset, asserted", !succeeds([&]() { ldm::assert_is_valid(dir + "/empty.h5"); }), c);
        // Everything is removed in turn. Validation ends, one way or the other.
        std::vector<std::string> paths;
        auto build = [&]() {
            auto d = ldm::create_dataset(dir + "/d.lue");
            healthy(d);
            auto& p = d.add_phenomenon("p");
            store(p.object_id(), {1, 2});
            auto& s = p.property_sets().add("s", ldm::TimeConfiguration{ldm::TimeDomainItemType::cell}, clock,
                ldm::SpaceConfiguration{ldm::Mobility::stationary, ldm::SpaceDomainItemType::box}, i4, 2);
            store(s.object_tracker().active_set_index(), {0, 2});
            store(s.object_tracker().active_object_id(), {1, 2, 1, 2});
            store(s.object_tracker().active_object_index(), {0, 0, 1, 1});
            int k = 0;
            for (std::string x : {"ss:2", "ds:12", "sscs:4", "dscs:12,22", "ssvs:22", "dsvs:2"}) add_property(s, "v" + std::to_string(k++), x);
            auto v = s.time_domain().value<ldm::TimeCell>();
            std::vector<std::int64_t> const box{0, 2};
            v.expand(1), v.write(ldm::IndexRange{0, 1}, box.data());
            store(v.count(), {2});
            s.space_domain().value<ldm::StationarySpaceBox>().expand(2);
        };
        build();
        {
            lh5::File f{dir + "/d.lue"};
            H5Ovisit2(f.id(), H5_INDEX_NAME, H5_ITER_INC, [](hid_t, char const* name, H5O_info_t const*, void* to) -> herr_t {
                static_cast<std::vector<std::string>*>(to)->push_back(name);
                return 0; }, &paths, H5O_INFO_BASIC);
        }
        {
            lh5::Issues j;
            ldm::validate(dir + "/d.lue", j);
            rec.expect("f: the dataset is valid", !j.errors_found() && paths.size() > 30, c + ldm::message(j));
        }
        for (auto const& p : paths)
        {
            if (p == ".") continue;
            std::vector<std::string> attributes;
            for (int round = 0; ; ++round)
            {
                build();
                std::string what_ = p;
                {
                    lh5::File f{dir + "/d.lue", H5F_ACC_RDWR};
                    if (round == 0)
                    {
                        hid_t o = H5Oopen(f.id(), p.c_str(), H5P_DEFAULT);
                        hsize_t at = 0;
                        H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, &at, [](hid_t, char const* name, H5A_info_t const*, void* to) -> herr_t {
                            static_cast<std::vector<std::string>*>(to)->push_back(name);
                            return 0; }, &attributes);
                        H5Oclose(o);
                        H5Ldelete(f.id(), p.c_str(), H5P_DEFAULT);
                    }
                    else
                    {
                        what_ += " @" + attributes[round - 1];
                        H5Adelete_by_name(f.id(), p.c_str(), attributes[round - 1].c_str(), H5P_DEFAULT);
                    }
                }
                std::string said = "quiet";
                lh5::Issues j;
                if (succeeds([&]() { ldm::validate(dir + "/d.lue", j); }, &said) && j.errors_found()) said = j.errors()[0].message();
                rec.expect("f: object is left open", lh5::File{dir + "/d.lue"}.object_count(H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR) == static_cast<std::size_t>(0) || j.errors_found() || j.warnings_found(), what_);
                rec.trans(), rec.state("f" + what_), rec.outcome(said);
                rec.count(j.errors_found() ? "missing parts noticed" : "missing parts not noticed");
                if (round == static_cast<int>(attributes.size())) break;
            }
        }
        rec.trace();
    }
};

void run(std::string const& c, Rec& rec)
{
    Case k{rec, c};
    switch (c[0])
    {
        case 'G': k.discretization(); break;
        case 'R': k.presence(); break;
        case 'm': k.messages(); break;
        case 'f': k.files(); break;
        default: k.consistency();
    }
}

MC_MAIN
