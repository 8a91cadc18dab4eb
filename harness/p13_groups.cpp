// P13: groups, links and the names and paths of objects in HDF5 files
#include "values.hpp"
#include "lue/hdf5/hard_link.hpp"
#include "lue/hdf5/soft_link.hpp"

using namespace mc;

// case: g | op op ..
//   c<p><n>   create group n in p        D<p><n>  create dataset n in p     s<p><n><t>  soft link n in p to t
//   h<p><n><t>  hard link                R  reopen          H  second handle of the file
//   p, t are paths in the table below, n is a name in the table below
//       n <i> name with special characters
//       m   everything about files: names, intent, existence, removal
//       e <depth> <fan-out>   identity of the groups of several files which look the same

static std::vector<std::string> const places{"/", "/a", "/a/b", "/b"};
static std::vector<std::string> const names{"a", "b", "c"};

void enumerate(std::string const& tier, Emit const& emit)
{
    bool const deep = tier == "thorough";
    emit("m");
    for (int d = 1; d <= 3; ++d) for (int f = 1; f <= 3; ++f) emit("e " + std::to_string(d) + " " + std::to_string(f));
    for (int i = 0; i < 300; ++i) emit("n " + std::to_string(i));
    std::vector<std::string> ops{"R", "H"};
    for (std::string p : {"0", "1", "2", "3"})
    {
        for (std::string n : {"0", "1", "2"})
        {
            ops.push_back("c" + p + n);
            if (p < "2") ops.push_back("D" + p + n);
            if (p < "2" && n > "0") ops.push_back("s" + p + n + "1"), ops.push_back("s" + p + n + "2"), ops.push_back("h" + p + n + "1"), ops.push_back("h" + p + n + "3");
        }
    }
    for (int depth = 1; depth <= 3; ++depth)
    {
        sequences(ops, depth, "g |", emit);
    }
    sequences({"c00", "c01", "c11", "c12", "s021", "s111", "h121", "h013", "D12", "R"}, 4, "g |", emit);
    if (deep)
    {
        sequences(ops, 4, "g |", emit);
        sequences({"c00", "c01", "c11", "c12", "s021", "s111", "h121", "h013", "D12", "R"}, 6, "g |", emit);
    }
}

std::string crash_key(std::string const& c)
{
    return words(c)[0];
}

// Model: nodes with named links
struct Node
{
    char kind{'g'};   // g, d
    std::map<std::string, std::pair<char, std::string>> links{};   // name -> (H, node number) or (S, path)
};

struct Model
{
    std::vector<Node> nodes{{}};

    auto resolve(std::string const& path, int depth = 0) const -> int
    {
        int at = 0;
        if (depth > 8) return -1;
        for (auto const& part : words(path, '/'))
        {
            if (part.empty()) continue;
            if (at < 0 || nodes[at].kind != 'g' || !nodes[at].links.contains(part)) return -1;
            auto const& [kind, to] = nodes[at].links.at(part);
            at = kind == 'H' ? std::stoi(to) : resolve(to, depth + 1);
        }
        return at;
    }
};

static auto sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

static void tree(Rec& rec, std::string const& c)
{
    auto const path = rec.scratch + "/g.h5";
    std::vector<std::unique_ptr<lh5::File>> files;
    files.push_back(std::make_unique<lh5::File>(lh5::create_file(path)));
    Model m;
    // Opens a group the way users do: one name at a time
    auto open = [&](std::string const& p) -> std::unique_ptr<lh5::Group> {
        std::unique_ptr<lh5::Group> g = std::make_unique<lh5::Group>(*files.back());
        for (auto const& part : words(p, '/'))
        {
            if (!part.empty()) g = std::make_unique<lh5::Group>(*g, part);
        }
        return g;
    };
    for (auto const& op : words(c.substr(c.find('|') + 2)))
    {
        std::string key = "after " + op.substr(0, 1) + ": ";
        if (op == "R")
        {
            files.clear();
            files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
        }
        else if (op == "H") files.push_back(std::make_unique<lh5::File>(path, H5F_ACC_RDWR));
        else
        {
            auto const& p = places[op[1] - '0'];
            auto const& n = names[op[2] - '0'];
            int const at = m.resolve(p);
            if (at < 0 || m.nodes[at].kind != 'g')
            {
                rec.expect("g: a missing group is opened", !succeeds([&]() { open(p); }), c);
                continue;
            }
            auto g = open(p);
            bool const free = !m.nodes[at].links.contains(n);
            bool ok = false;
            if (op[0] == 'c')
            {
                ok = succeeds([&]() {
                    auto child = lh5::create_group(*g, n);
                    rec.expect("g: created group", child.group_names().empty() && child.id().name() == n && child.has_parent() &&
                        child.parent().id() == g->id(), c);
                });
                if (free) m.nodes[at].links[n] = {'H', std::to_string(m.nodes.size())}, m.nodes.emplace_back();
            }
            if (op[0] == 'D')
            {
                ok = succeeds([&]() { lh5::create_dataset(g->id(), n, lh5::std_int32_le, lh5::create_dataspace(Shape{2}), {}); });
                if (free) m.nodes[at].links[n] = {'H', std::to_string(m.nodes.size())}, m.nodes.push_back({'d'});
            }
            if (op[0] == 's' || op[0] == 'h')
            {
                auto const& t = places[op[3] - '0'];
                int const to = m.resolve(t);
                if (to < 0 || m.nodes[to].kind != 'g') continue;
                // A path with which the target can be found
                auto target = open(t);
                ok = succeeds([&]() {
                    if (op[0] == 's')
                    {
                        auto l = g->create_soft_link(target->id(), n);
                        rec.expect("g: soft link", l.path() == target->id().pathname(), c);
                    }
                    else
                    {
                        g->create_hard_link(target->id(), n);
                    }
                });
                if (free) m.nodes[at].links[n] = op[0] == 's' ? std::pair{'S', target->id().pathname()} : std::pair{'H', std::to_string(to)};
                if (free && op[0] == 's')
                {
                    rec.expect("g: path of the target", m.resolve(target->id().pathname()) == to, c);
                }
            }
            rec.expect("g: " + op.substr(0, 1) + (free ? ": fails" : ": existing name"), ok == free, c);
        }
        rec.trans();
        // Compare, with every handle
        for (auto const& f : files)
        {
            for (auto const& p : places)
            {
                int const at = m.resolve(p);
                if (at < 0 || m.nodes[at].kind != 'g') continue;
                lh5::Group g{*f, p};
                std::vector<std::string> groups, objects;
                for (auto const& [n, l] : m.nodes[at].links)
                {
                    int const to = l.first == 'H' ? std::stoi(l.second) : m.resolve(l.second);
                    objects.push_back(n);
                    if (m.nodes[to].kind == 'g') groups.push_back(n);
                }
                auto const w = c + ": " + p;
                // Opened by path: from the root, and from the groups in between
                if (p != "/")
                {
                    auto const up = p.rfind('/');
                    std::vector<lh5::Group> same{g, lh5::Group{*f, p.substr(1)}, lh5::Group{lh5::Group{*f, p.substr(0, up + 1)}, p.substr(up + 1)},
                        lh5::Group{lh5::Group{*f, up == 0 ? p : p.substr(0, up)}, p}};
                    for (auto const& s : same)
                    {
                        rec.expect(key + "group opened by path", s == g && m.resolve(s.id().pathname()) == at, w);
                        rec.expect(key + "parent of group opened by path", s.has_parent() && m.resolve(s.parent_pathname() + "/" + s.id().name()) == at &&
                            s.parent().contains_group(s.id().name()) && s.parent().id().pathname() == s.parent_pathname(), w);
                    }
                }
                rec.expect_eq(key + "group_names", sorted(g.group_names()), groups, w);
                rec.expect_eq(key + "object_names", sorted(g.object_names()), objects, w);
                for (auto const& n : names)
                {
                    bool const there = m.nodes[at].links.contains(n);
                    auto const l = there ? m.nodes[at].links.at(n) : std::pair<char, std::string>{};
                    int const to = !there ? -1 : l.first == 'H' ? std::stoi(l.second) : m.resolve(l.second);
                    rec.expect_eq(key + "contains_group", g.contains_group(n), there && m.nodes[to].kind == 'g', w + " " + n);
                    rec.expect_eq(key + "contains_dataset", g.contains_dataset(n), there && m.nodes[to].kind == 'd', w + " " + n);
                    rec.expect_eq(key + "contains_soft_link", g.contains_soft_link(n), there && l.first == 'S', w + " " + n);
                    rec.expect_eq(key + "contains_hard_link", g.contains_hard_link(n), there && l.first == 'H', w + " " + n);
                    if (there && l.first == 'S' && g.contains_soft_link(n))
                    {
                        rec.expect_eq(key + "path of soft link", g.soft_link(n).path(), l.second, w + " " + n);
                    }
                    if (there && m.nodes[to].kind == 'g' && g.contains_group(n))
                    {
                        lh5::Group child{g, n};
                        // Which one it is: compare with all places
                        for (auto const& q : places)
                        {
                            int const other = m.resolve(q);
                            if (other >= 0 && m.nodes[other].kind == 'g')
                            {
                                rec.expect_eq(key + "same group", child.id() == lh5::Group(*f, q).id(), other == to, w + " " + n + " is " + q);
                                rec.expect_eq(key + "not the same group", child != lh5::Group(*f, q), other != to, w + " " + n + " is " + q);
                            }
                        }
                        rec.expect(key + "parent", child.has_parent() && m.resolve(child.parent_pathname()) >= 0, w + " " + n);
                        rec.expect(key + "path leads to group", m.resolve(child.id().pathname()) == to, w + " " + n + ": " + child.id().pathname());
                        if (l.first == 'H')
                        {
                            // With more than one link, HDF5 chooses one of the paths
                            rec.expect(key + "parent leads to group", m.resolve(child.parent_pathname() + "/" + child.id().name()) == to, w + " " + n);
                        }
                        rec.expect(key + "file", child.id().file_id() == f->id(), w + " " + n);
                    }
                    else
                    {
                        rec.expect(key + "open a missing group", !succeeds([&]() { lh5::Group{g, n}; }), w + " " + n);
                    }
                }
            }
        }
        std::string state;
        for (auto const& n : m.nodes)
        {
            state += n.kind;
            for (auto const& [k, l] : n.links) state += " " + k + l.first + l.second;
            state += ";";
        }
        rec.state(state + std::to_string(files.size()));
        rec.outcome(op + state);
    }
    rec.trace();
    files.clear();
    std::filesystem::remove(path);
}

static void special(Rec& rec, std::string const& c)
{
    int const i = std::stoi(c.substr(2));
    // Every byte, on its own (except for those that mean something: / and .) and within a name, and some more
    std::vector<std::string> ns;
    std::vector<std::string> bad;
    if (i < 256)
    {
        std::string const b(1, static_cast<char>(i));
        if (i == 0 || i == '/')
        {
            bad = {b, "a" + b, b + "a", "a" + b + "b", "a" + b + b + "b"};
        }
        else
        {
            if (i == '.') bad = {b};
            else ns = {b};
            for (std::string s : {"a" + b, b + "a", "a" + b + "b", b + b + "a"}) ns.push_back(s);
        }
    }
    else if (i == 256) bad = {""};
    else ns = {std::string(i - 250, 'k'), std::string((i - 250) * 40, 'm'), "é", "日本"};
    std::set<std::string> unique(ns.begin(), ns.end());
    auto const path = rec.scratch + "/n.h5";
    {
        auto f = lh5::create_file(path);
        for (auto const& n : unique)
        {
            rec.expect("n: create", succeeds([&]() {
                auto g = lh5::create_group(f, n);
                rec.expect("n: name", g.id().name() == n && g.id().pathname() == "/" + n && g.parent().id() == f.id(), c + " " + n);
            }), c + " " + n);
        }
        for (auto const& n : bad)
        {
            rec.expect("n: invalid name accepted", !succeeds([&]() { lh5::create_group(f, n); }), c + " '" + n + "'");
        }
        rec.expect("n: names", sorted(f.group_names()) == std::vector<std::string>(unique.begin(), unique.end()), c);
    }
    lh5::File f{path};
    rec.expect("n: names after reopening", sorted(f.group_names()) == std::vector<std::string>(unique.begin(), unique.end()) &&
        sorted(f.object_names()) == sorted(f.group_names()), c);
    for (auto const& n : unique) rec.expect("n: contains", f.contains_group(n) && lh5::Group{f, n}.id().name() == n, c + " " + n);
    rec.trans(unique.size() + bad.size()), rec.trace(), rec.state(c), rec.outcome(c);
}

static void file_level(Rec& rec, std::string const& c)
{
    for (std::string n : {"x.h5", "y", "a b.h5", "é.h5", ".h", "-"})
    {
        auto const path = rec.scratch + "/" + n;
        rec.expect("m: missing file exists", !lh5::file_exists(path), c + n);
        rec.expect("m: missing file is opened", !succeeds([&]() { lh5::File{path}; }) && !succeeds([&]() { lh5::File{path, H5F_ACC_RDWR}; }), c + n);
        for (int round = 0; round < 2; ++round)
        {
            auto f = lh5::create_file(path);
            rec.expect("m: created", f.pathname() == path && f.intent() & H5F_ACC_RDWR && f.group_names().empty() && !f.has_parent() &&
                lh5::file_exists(path) && f.hdf5_version() == f.attributes().read<std::string>("hdf5_version"), c + n);
            lh5::create_group(f, "g");
            rec.expect("m: created while open", !succeeds([&]() { lh5::create_file(path); }), c + n);
            f.flush();
            rec.expect("m: open objects", f.object_count(H5F_OBJ_FILE) >= 1 && f.object_count(H5F_OBJ_GROUP) == 0, c + n);
            lh5::Group g{f, "g"};
            rec.expect("m: open group", f.object_count(H5F_OBJ_GROUP) == 1, c + n);
        }
        {
            lh5::File f{path}, h{path, H5F_ACC_RDONLY};
            rec.expect("m: read-only", f.intent() == H5F_ACC_RDONLY && f.id() == h.id() && f.contains_group("g"), c + n);
            rec.expect("m: read-only file is changed", !succeeds([&]() { lh5::create_group(f, "h"); }) && !f.contains_group("h"), c + n);
        }
        rec.expect("m: a folder is a file", !lh5::file_exists(rec.scratch) && !succeeds([&]() { lh5::File{rec.scratch}; }), c);
        std::ofstream(path + ".txt") << "text";
        rec.expect("m: text is opened", lh5::file_exists(path + ".txt") && !succeeds([&]() { lh5::File{path + ".txt"}; }), c);
        lh5::remove_file(path), lh5::remove_file(path + ".txt");
        rec.expect("m: removed", !lh5::file_exists(path) && !succeeds([&]() { lh5::File{path}; }), c + n);
        auto in_memory = lh5::create_in_memory_file(path);
        lh5::create_group(in_memory, "k");
        rec.expect("m: in memory", in_memory.contains_group("k") && !lh5::file_exists(path), c + n);
        rec.trans(12), rec.state(n), rec.outcome(n);
    }
    rec.trace();
}

static void identity(Rec& rec, std::string const& c)
{
    auto const w = words(c);
    int const depth = std::stoi(w[1]), fan = std::stoi(w[2]);
    std::vector<std::string> paths{"/"};
    for (std::size_t from = 0, level = 0; level < static_cast<std::size_t>(depth); ++level)
    {
        auto const to = paths.size();
        for (; from < to; ++from)
            for (int i = 0; i < fan; ++i) paths.push_back((paths[from] == "/" ? "" : paths[from]) + "/" + std::string(1, static_cast<char>('a' + i)));
    }
    // Two files with the same contents, and each of them once more, by another name
    std::vector<std::string> const names{rec.scratch + "/x.h5", rec.scratch + "/y.h5", rec.scratch + "/link.h5", rec.scratch + "/hard.h5"};
    for (int i = 0; i < 2; ++i)
    {
        auto f = lh5::create_file(names[i]);
        for (auto const& p : paths) if (p != "/") {
            auto parent = p.rfind('/') == 0 ? lh5::Group{f} : lh5::Group{f, p.substr(0, p.rfind('/'))};
            lh5::create_group(parent, p.substr(p.rfind('/') + 1));
        }
    }
    std::filesystem::create_symlink(names[0], names[2]);
    std::filesystem::create_hard_link(names[1], names[3]);
    {
        std::vector<int> const which{0, 0, 1, 0, 1};
        std::vector<std::unique_ptr<lh5::File>> files;
        for (int i : {0, 0, 1, 2, 3}) files.push_back(std::make_unique<lh5::File>(names[i]));
        struct G { int file; std::string path; std::unique_ptr<lh5::Group> group; };
        std::vector<G> groups;
        for (std::size_t i = 0; i < files.size(); ++i)
            for (auto const& p : paths) groups.push_back({which[i], p, std::make_unique<lh5::Group>(*files[i], p)});
        for (auto const& a : groups)
        {
            for (auto const& b : groups)
            {
                bool const same = a.file == b.file && a.path == b.path;
                auto const text = c + ": " + std::to_string(a.file) + a.path + " " + std::to_string(b.file) + b.path;
                rec.expect_eq("e: same group", *a.group == *b.group, same, text);
                rec.expect_eq("e: different group", *a.group != *b.group, !same, text);
                rec.expect_eq("e: same identifier", a.group->id() == b.group->id(), same, text);
                rec.trans();
            }
        }
        for (std::size_t i = 0; i < files.size(); ++i)
            for (std::size_t j = 0; j < files.size(); ++j)
                rec.expect_eq("e: same file", files[i]->id() == files[j]->id(), which[i] == which[j], c);
    }
    for (auto const& n : names) std::filesystem::remove(n);
    rec.trace(), rec.state(c), rec.outcome(c);
}

void run(std::string const& c, Rec& rec)
{
    if (c[0] == 'e') return identity(rec, c);
    if (c[0] == 'g') tree(rec, c);
    else if (c[0] == 'n') special(rec, c);
    else file_level(rec, c);
}

MC_MAIN
