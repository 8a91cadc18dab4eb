// P30: models read from, and write to, LUE datasets. Tasks are scheduled by us; all HDF5 calls are real.
#define MC_BATCH 4
#define MC_TIMEOUT 300
#include "p30_io.hpp"
#include <dlfcn.h>

// Access to the file, as seen by the operating system: a dataset that is open for writing is open nowhere else. The
// localities share this process here, so HDF5 itself does not notice.
namespace {

    struct Monitor
    {
            bool active{false};
            std::string problem;
            std::map<hid_t, bool> writers;
            int failing_write{0};  // Which write, counted from 1, is made to fail
            int nr_writes{0};

            void wrong(std::string const& s)
            {
                if (problem.empty())
                {
                    problem = s;
                }
            }
    };

    Monitor monitor;

    auto name_of(hid_t const id) -> std::string
    {
        auto const type = H5Iget_type(id);
        if (type != H5I_FILE && type != H5I_GROUP && type != H5I_DATASET && type != H5I_ATTR)
        {
            return "";
        }
        auto const n = H5Fget_name(id, nullptr, 0);
        if (n <= 0)
        {
            return "";
        }
        std::string s(static_cast<std::size_t>(n), ' ');
        H5Fget_name(id, s.data(), s.size() + 1);
        return s;
    }

    // <scratch>/L<locality>/<name> is the file <scratch>/<name>
    auto plain(std::string const& path) -> std::string
    {
        std::filesystem::path const p{path};
        auto const dir = p.parent_path().filename().string();
        return dir.size() == 2 && dir[0] == 'L' ? (p.parent_path().parent_path() / p.filename()).string() : path;
    }

    auto open_objects(std::string const& path) -> std::vector<hid_t>
    {
        std::vector<hid_t> result;
        auto const n = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL);
        if (n > 0)
        {
            std::vector<hid_t> ids(static_cast<std::size_t>(n));
            auto const m = H5Fget_obj_ids(H5F_OBJ_ALL, H5F_OBJ_ALL, ids.size(), ids.data());
            for (long i = 0; i < static_cast<long>(m); ++i)
            {
                if (plain(name_of(ids[static_cast<std::size_t>(i)])) == path)
                {
                    result.push_back(ids[static_cast<std::size_t>(i)]);
                }
            }
        }
        return result;
    }

    template<typename F>
    auto real(char const* name) -> F
    {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }

    void point()
    {
        if (monitor.active)
        {
            hpx::mock::rt().point();
        }
    }

}  // Anonymous namespace

extern "C" {

    auto H5Fopen(char const* path, unsigned flags, hid_t fapl) -> hid_t
    {
        static auto const f = real<decltype(&H5Fopen)>("H5Fopen");
        point();
        if (monitor.active)
        {
            bool const writing = flags & H5F_ACC_RDWR;
            auto const ids = open_objects(plain(path));
            bool const written = std::any_of(ids.begin(), ids.end(), [](hid_t i) { return monitor.writers.contains(i); });
            if (writing && !ids.empty())
            {
                monitor.wrong(std::format("opened for writing while still open for {}", written ? "writing" : "reading"));
            }
            else if (!writing && written)
            {
                monitor.wrong("opened for reading while still open for writing");
            }
        }
        hid_t const id = f(path, flags, fapl);
        if (monitor.active && id >= 0 && (flags & H5F_ACC_RDWR))
        {
            monitor.writers[id] = true;
        }
        if (monitor.active && id < 0)
        {
            monitor.wrong("cannot be opened");
        }
        point();
        return id;
    }

    // Chunks are large, and files are opened very often
    auto H5Pset_chunk(hid_t id, int rank, hsize_t const* extents) -> herr_t
    {
        static auto const f = real<decltype(&H5Pset_chunk)>("H5Pset_chunk");
        std::vector<hsize_t> small(extents, extents + rank);
        small[0] = std::min<hsize_t>(small[0], 8);
        return f(id, rank, small.data());
    }

    auto H5Fclose(hid_t id) -> herr_t
    {
        static auto const f = real<decltype(&H5Fclose)>("H5Fclose");
        point();
        auto const result = f(id);
        if (H5Iis_valid(id) <= 0)
        {
            monitor.writers.erase(id);
        }
        point();
        return result;
    }

    auto H5Dread(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void* buffer) -> herr_t
    {
        static auto const f = real<decltype(&H5Dread)>("H5Dread");
        point();
        auto const result = f(a, b, c, d, e, buffer);
        point();
        return result;
    }

    auto H5Dwrite(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void const* buffer) -> herr_t
    {
        static auto const f = real<decltype(&H5Dwrite)>("H5Dwrite");
        point();
        bool const fail = monitor.active && ++monitor.nr_writes == monitor.failing_write;
        auto const result = fail ? herr_t{-1} : f(a, b, c, d, e, buffer);
        point();
        return result;
    }
}


namespace lue::detail {

    auto real_normalize(std::string const& pathname) -> std::filesystem::path;

    // Each locality is a process of its own, with its own administration of what happens to files. Here they share
    // static variables, so tell files apart by the locality.
    auto normalize(std::string const& pathname) -> std::filesystem::path
    {
        auto const path = real_normalize(plain(pathname));
        return path.parent_path() / std::format("L{}", hpx::mock::rt().here()) / path.filename();
    }

}  // namespace lue::detail


namespace p30 {

    extern template void round_trip<std::uint8_t>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<std::int32_t>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<std::uint32_t>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<std::int64_t>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<std::uint64_t>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<float>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);
    extern template void round_trip<double>(mc::Rec&, std::string const&, Plan const&, Layout const&, bool);

}  // namespace p30

using namespace p30;

namespace {

    // Something a model does. kind: Write an array that is created, Read it all, read a Hyperslab (of
    // everything), Copy (read and write what was read), N: copy what was read without a hyperslab. Upper case: variable raster; lower
    // case: constant raster.
    struct Step
    {
            char kind;
            int slot;
            int other;
            bool wait;
    };

    auto steps_of(std::string const& program) -> std::vector<Step>
    {
        std::vector<Step> result;
        for (std::size_t i = 0; i < program.size();)
        {
            Step s{program[i++], 0, 0, false};
            s.slot = program[i++] - '0';
            if (std::toupper(s.kind) == 'C' || std::toupper(s.kind) == 'N')
            {
                s.other = program[i++] - '0';
            }
            if (i < program.size() && program[i] == '.')
            {
                s.wait = true;
                ++i;
            }
            result.push_back(s);
        }
        return result;
    }

    // Run the program, which is to have the effect of doing one step after another
    template<typename E>
    void observe(
        mc::Rec& rec, std::string const& key, Plan const& plan, std::string const& program, Layout const& l, std::string const& scratch, int const failing_write)
    {
        auto const steps = steps_of(program);
        auto const original = scratch + "/template.lue";
        auto const files = create<E>(original, l.rows, l.cols, 2, 1);
        auto state = contents<E>(original, files, l.rows, l.cols);
        auto show = [](std::vector<Grid<E>> const& reads, std::map<int, Grid<E>> const& state, std::string const& problem)
        {
            std::string s;
            for (auto const& g : reads)
            {
                s += "read " + g.str() + " ";
            }
            for (auto const& [k, g] : state)
            {
                s += std::format("{}: {} ", k, g.str());
            }
            return s + problem;
        };
        auto slot_of = [](char const kind, int const slot) { return std::isupper(kind) ? 10 + slot : slot; };

        std::string want;
        {
            auto s = state;
            std::vector<Grid<E>> reads;
            for (std::size_t i = 0; i < steps.size(); ++i)
            {
                auto const& step = steps[i];
                switch (std::toupper(step.kind))
                {
                    case 'W':
                        s[slot_of(step.kind, step.slot)] = values<E>(l.rows, l.cols, static_cast<long>(i));
                        break;
                    case 'R':
                    case 'H':
                        reads.push_back(s[slot_of(step.kind, step.slot)]);
                        break;
                    default:
                        s[slot_of(step.kind, step.other)] = s[slot_of(step.kind, step.slot)];
                }
            }
            want = failing_write ? "the failure is reported" : show(reads, s, "");
        }

        static int nr_files = 0;
        std::string left_over;
        bool const only_writes = std::all_of(steps.begin(), steps.end(), [](Step const& s) { return std::toupper(s.kind) == 'W'; });
        fw::explore(
            rec,
            key,
            plan,
            [&]
            {
                // Files are large. Use the one that is left by the previous schedule, if all went well.
                auto const path = std::format("{}/d{}.lue", scratch, nr_files++);
                if (left_over.empty())
                {
                    std::filesystem::copy_file(original, path);
                }
                else
                {
                    std::filesystem::rename(left_over, path);
                    left_over.clear();
                }
                struct Remove
                {
                        std::string path;
                        ~Remove()
                        {
                            monitor.active = false;
                            if (!path.empty())
                            {
                                std::filesystem::remove(path);
                            }
                        }
                } remove{path};
                monitor = Monitor{};
                monitor.active = true;
                monitor.failing_write = failing_write;

                lue::Shape<lue::Count, 2> const pshape{l.prows, l.pcols};
                lh5::Hyperslab const all{lh5::Shape{static_cast<hsize_t>(l.rows), static_cast<hsize_t>(l.cols)}};
                std::vector<Array<E>> arrays;
                std::vector<hpx::future<void>> writes;
                std::vector<std::size_t> reads;
                for (std::size_t i = 0; i < steps.size(); ++i)
                {
                    auto const& step = steps[i];
                    bool const variable = std::isupper(step.kind);
                    std::string const where = path + (variable ? "/v/s/l0" : std::format("/c/s/l{}", step.slot));
                    auto write = [&](Array<E> const& array, int const slot)
                    {
                        writes.push_back(
                            variable ? lue::to_lue(array, where, files.variable_id, static_cast<lue::Index>(slot))
                                     : lue::to_lue(array, path + std::format("/c/s/l{}", slot), files.constant_id));
                        if (step.wait)
                        {
                            writes.back().wait();
                        }
                    };
                    auto read = [&](bool const hyperslab)
                    {
                        arrays.push_back(
                            variable ? (hyperslab ? lue::from_lue<E>(where, all, pshape, files.variable_id, static_cast<lue::Index>(step.slot))
                                                  : lue::from_lue<E>(where, pshape, files.variable_id, static_cast<lue::Index>(step.slot)))
                                     : (hyperslab ? lue::from_lue<E>(where, all, pshape, files.constant_id)
                                                  : lue::from_lue<E>(where, pshape, files.constant_id)));
                        if (step.wait)
                        {
                            for (lue::Index p = 0; p < arrays.back().partitions().nr_elements(); ++p)
                            {
                                arrays.back().partitions()[p].wait();
                            }
                        }
                    };
                    switch (std::toupper(step.kind))
                    {
                        case 'W':
                            arrays.push_back(to_lue(values<E>(l.rows, l.cols, static_cast<long>(i)), l.prows, l.pcols));
                            write(arrays.back(), step.slot);
                            break;
                        case 'R':
                            read(false);
                            reads.push_back(arrays.size() - 1);
                            break;
                        case 'H':
                            read(true);
                            reads.push_back(arrays.size() - 1);
                            break;
                        default:
                            read(std::toupper(step.kind) == 'C');
                            write(arrays.back(), step.other);
                    }
                }

                if (failing_write)
                {
                    std::string result{"the failure is not reported"};
                    for (auto& f : writes)
                    {
                        try
                        {
                            f.get();
                        }
                        catch (std::runtime_error const&)
                        {
                            result = "the failure is reported";
                        }
                    }
                    hpx::mock::rt().quiesce();
                    return result;
                }
                for (auto& f : writes)
                {
                    f.get();
                }
                std::string problem;
                std::vector<Grid<E>> got;
                for (auto const idx : reads)
                {
                    got.push_back(from_lue(arrays[idx], &problem));
                }
                for (auto const& array : arrays)
                {
                    for (lue::Index p = 0; p < array.partitions().nr_elements(); ++p)
                    {
                        array.partitions()[p].wait();
                    }
                }
                // Everything is written, and may be overwritten now
                if (!only_writes)
                {
                    hpx::mock::rt().quiesce();
                }
                auto const left = contents<E>(path, files, l.rows, l.cols, true);
                hpx::mock::rt().quiesce();
                monitor.active = false;
                if (H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) == 0 && monitor.problem.empty())
                {
                    left_over = std::exchange(remove.path, "");
                }
                return show(got, left, problem.empty() ? monitor.problem : problem);
            },
            want,
            failing_write ? std::format("write {} of {} with {} fails", failing_write, program, l.str()) : std::format("{} with {}", program, l.str()));
        monitor.active = false;
        if (rec.violations.empty() && H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) > 0)
        {
            rec.violation(key, program + ": datasets are still open afterwards");
        }
        std::filesystem::remove(original);
        std::filesystem::remove(left_over);
    }

}  // Anonymous namespace


void enumerate(std::string const& tier, std::function<void(std::string const&)> const& emit)
{
    bool const thorough = tier == "thorough";

    // Values, layouts and parts
    for (std::string const type : {"u8", "i32", "u32", "i64", "u64", "f32", "f64"})
    {
        for (auto const& [rows, cols] : std::vector<std::pair<long, long>>{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 3}})
        {
            if (!thorough && rows * cols > 6 && type != "i32" && type != "f64")
            {
                continue;
            }
            for (auto const& l : layouts(rows, cols))
            {
                for (char const* raster : {"variable", "constant"})
                {
                    emit(std::format("{}|values|{}|{}|{}|{}|{}|{}", tier, type, raster, l.rows, l.cols, l.prows, l.pcols));
                }
            }
        }
    }

    // All programs of few steps
    std::vector<std::string> const steps{"W0", "W1", "R0", "R1", "H0", "C01", "C10", "N01", "w0", "r0", "h0", "c01", "n10"};
    std::function<void(std::string const&, int)> programs = [&](std::string const& prefix, int depth)
    {
        if (!prefix.empty())
        {
            emit(std::format("{}|program|{}|2|2|1|2|0|p", tier, prefix));
        }
        if (depth > 0)
        {
            for (auto const& s : steps)
            {
                programs(prefix + s, depth - 1);
            }
        }
    };
    programs("", 2);

    // A write fails
    for (std::string const p : {"W0", "w0"})
    {
        for (char const* layout : {"1|1|1|1", "1|2|1|1", "2|2|1|1"})
        {
            Layout const l{layout[0] - '0', layout[2] - '0', 1, 1};
            for (int k = 1; k <= l.nr_partitions(); ++k)
            {
                emit(std::format("{}|program|{}|{}|{}|p|{}", tier, p, layout, 1, k));
            }
        }
    }

    // Schedules
    for (std::string const p : {"W0R0", "W0H0", "W0W1", "W0W0", "R0R1", "R0W0", "H0W0", "H0H0W0", "R0R0W0", "C01", "N01", "C01R1", "W0C01", "W0.R0", "R0.W0", "W0W1R0R1", "C01C10", "W0H0W0H0",
                                "w0r0", "w0h0", "w0w1", "w0w0", "r0r1", "r0w0", "h0w0", "h0h0w0", "r0r0w0", "c01", "n01", "c01r1", "w0c01", "w0.r0", "r0.w0", "w0W0", "W0w0", "h0W0", "H0w0",
                                "w0H0", "W0h0", "w0R0", "W0r0"})
    {
        for (char const* layout : {"1|1|1|1", "1|2|1|1"})
        {
            emit(std::format("{}|program|{}|{}|{}|p", tier, p, layout, 1));
            if (thorough)
            {
                emit(std::format("{}|program|{}|{}|{}|s", tier, p, layout, 2));
            }
        }
    }
    if (thorough)
    {
        programs("", 3);
        for (std::string const p : {"W0R0", "R0W0", "W0W0", "H0H0W0", "w0r0", "r0w0", "h0h0w0"})
        {
            emit(std::format("{}|program|{}|1|2|1|1|2|p", tier, p));
        }
    }
}


void run(std::string const& c, mc::Rec& rec)
{
    if (!std::getenv("VERIF_DEBUG")) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }
    auto const w = mc::words(c, '|');
    bool const thorough = w[0] == "thorough";
    std::error_code ec;
    for (int i = 0; i < 4; ++i)
    {
        std::filesystem::create_directory_symlink(".", rec.scratch + std::format("/L{}", i), ec);
    }

    if (w[1] == "values")
    {
        Layout const l{std::stol(w[4]), std::stol(w[5]), std::stol(w[6]), std::stol(w[7])};
        bool const variable = w[3] == "variable";
        Plan plan;
        plan.localities = thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2};
        plan.both_orders = false;
        std::erase_if(plan.localities, [&](int k) { return k > l.nr_partitions(); });
        auto const key = std::format("values ({})", w[3]);
        w[2] == "u8"    ? round_trip<std::uint8_t>(rec, key, plan, l, variable)
        : w[2] == "i32" ? round_trip<std::int32_t>(rec, key, plan, l, variable)
        : w[2] == "u32" ? round_trip<std::uint32_t>(rec, key, plan, l, variable)
        : w[2] == "i64" ? round_trip<std::int64_t>(rec, key, plan, l, variable)
        : w[2] == "u64" ? round_trip<std::uint64_t>(rec, key, plan, l, variable)
        : w[2] == "f32" ? round_trip<float>(rec, key, plan, l, variable)
                        : round_trip<double>(rec, key, plan, l, variable);
    }
    else
    {
        Layout const l{std::stol(w[3]), std::stol(w[4]), std::stol(w[5]), std::stol(w[6])};
        Plan plan;
        plan.localities = {1, 2};
        std::erase_if(plan.localities, [&](int k) { return k > l.nr_partitions(); });
        plan.deviations = std::stoi(w[7]);
        plan.preempt = w[8] == "p";
        plan.max_schedules = thorough ? 20000 : 5000;
        int const failing_write = w.size() > 9 ? std::stoi(w[9]) : 0;
        observe<std::int32_t>(rec, failing_write ? "failing write" : "steps", plan, w[2], l, rec.scratch, failing_write);
    }
}

auto crash_key(std::string const& c) -> std::string
{
    return mc::words(c, '|')[1];
}

MC_MAIN
