// Support for harnesses that enumerate executions of the project's C++ code.
//
// A harness defines
//   void enumerate(std::string const& tier, Emit const& emit);   cases, in a fixed order, simplest first
//   void run(std::string const& c, Rec& rec);                    executes one case on the real code
//   std::string crash_key(std::string const& c);                 what to call it when the process dies
// Cases run in batches in forked processes, so that a crash, a failing assertion or a hang is a result too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

    inline auto hash(std::string const& s) -> std::uint64_t
    {
        std::uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s)
        {
            h = (h ^ c) * 1099511628211ULL;
        }
        h ^= h >> 29;
        h *= 0xbf58476d1ce4e5b9ULL;
        h ^= h >> 32;
        return h;
    }

    struct Violation
    {
        long index;
        std::string c;
        std::string message;
    };

    struct Rec
    {
        long evaluations{0}, transitions{0}, traces{0};
        std::set<std::uint64_t> states, outcomes;
        std::map<std::string, Violation> violations;
        std::map<std::string, long> counters;
        std::string c;
        long index{0};
        std::string scratch;

        void violation(std::string const& key, std::string const& message)
        {
            if (!violations.contains(key))
            {
                violations[key] = {index, c, message.substr(0, 1500)};
            }
        }
        void state(std::string const& s) { states.insert(hash(s)); }
        void outcome(std::string const& s) { outcomes.insert(hash(s)); }
        void trans(long n = 1) { transitions += n; }
        void trace(long n = 1) { traces += n; }
        void count(std::string const& name, long n = 1) { counters[name] += n; }

        template<typename A, typename B>
        void expect_eq(std::string const& key, A const& got, B const& want, std::string const& where = "")
        {
            if (!(got == want))
            {
                std::ostringstream s;
                s << where << ": got " << show(got) << ", expected " << show(want);
                violation(key, s.str());
            }
        }
        void expect(std::string const& key, bool ok, std::string const& message)
        {
            if (!ok)
            {
                violation(key, message);
            }
        }
        template<typename T>
        static auto show(T const& v) -> std::string
        {
            std::ostringstream s;
            if constexpr (requires { s << v; })
            {
                s << v;
            }
            else if constexpr (requires { v.begin(); })
            {
                s << "[";
                for (auto const& x : v)
                {
                    s << show(x) << " ";
                }
                s << "]";
            }
            else
            {
                s << "?";
            }
            return s.str();
        }
        void merge(Rec const& o)
        {
            evaluations += o.evaluations;
            transitions += o.transitions;
            traces += o.traces;
            states.insert(o.states.begin(), o.states.end());
            outcomes.insert(o.outcomes.begin(), o.outcomes.end());
            for (auto const& [k, v] : o.violations)
            {
                auto it = violations.find(k);
                if (it == violations.end() || v.index < it->second.index)
                {
                    violations[k] = v;
                }
            }
            for (auto const& [k, v] : o.counters)
            {
                counters[k] += v;
            }
        }
    };

    inline auto esc(std::string const& s) -> std::string
    {
        std::string r;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\')
            {
                r += '\\';
                r += static_cast<char>(ch);
            }
            else if (ch < 32 || ch > 126)
            {
                char b[8];
                std::snprintf(b, sizeof(b), "\\u%04x", ch);
                r += b;
            }
            else
            {
                r += static_cast<char>(ch);
            }
        }
        return r;
    }

    inline auto put(std::string& b, std::string const& s)
    {
        std::uint64_t n = s.size();
        b.append(reinterpret_cast<char const*>(&n), 8);
        b += s;
    }
    inline auto put(std::string& b, std::uint64_t n)
    {
        b.append(reinterpret_cast<char const*>(&n), 8);
    }
    struct Reader
    {
        std::string const& b;
        std::size_t i{0};
        auto num() -> std::uint64_t
        {
            std::uint64_t n = 0;
            std::memcpy(&n, b.data() + i, 8);
            i += 8;
            return n;
        }
        auto str() -> std::string
        {
            auto n = num();
            auto s = b.substr(i, n);
            i += n;
            return s;
        }
    };
    inline auto pack(Rec const& r) -> std::string
    {
        std::string b;
        put(b, r.evaluations), put(b, r.transitions), put(b, r.traces);
        put(b, r.states.size());
        for (auto x : r.states) put(b, x);
        put(b, r.outcomes.size());
        for (auto x : r.outcomes) put(b, x);
        put(b, r.violations.size());
        for (auto const& [k, v] : r.violations) put(b, k), put(b, v.index), put(b, v.c), put(b, v.message);
        put(b, r.counters.size());
        for (auto const& [k, v] : r.counters) put(b, k), put(b, v);
        return b;
    }
    inline auto unpack(std::string const& b) -> Rec
    {
        Rec r;
        Reader in{b};
        r.evaluations = in.num(), r.transitions = in.num(), r.traces = in.num();
        for (auto n = in.num(); n > 0; --n) r.states.insert(in.num());
        for (auto n = in.num(); n > 0; --n) r.outcomes.insert(in.num());
        for (auto n = in.num(); n > 0; --n)
        {
            auto k = in.str();
            Violation v;
            v.index = in.num(), v.c = in.str(), v.message = in.str();
            r.violations[k] = v;
        }
        for (auto n = in.num(); n > 0; --n)
        {
            auto k = in.str();
            r.counters[k] = in.num();
        }
        return r;
    }

    using Emit = std::function<void(std::string const&)>;

    inline auto words(std::string const& s, char sep = ' ') -> std::vector<std::string>
    {
        std::vector<std::string> r;
        std::string w;
        for (char ch : s)
        {
            if (ch == sep)
            {
                r.push_back(w);
                w.clear();
            }
            else
            {
                w += ch;
            }
        }
        r.push_back(w);
        return r;
    }

    inline auto join(std::vector<std::string> const& v, char sep = ' ') -> std::string
    {
        std::string r;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            r += (i ? std::string(1, sep) : "") + v[i];
        }
        return r;
    }

    // All sequences over an alphabet, of a given length
    inline void sequences(
        std::vector<std::string> const& alphabet, int depth, std::string const& prefix, Emit const& emit, char sep = ' ')
    {
        if (depth == 0)
        {
            emit(prefix);
            return;
        }
        for (auto const& a : alphabet)
        {
            sequences(alphabet, depth - 1, prefix.empty() ? a : prefix + sep + a, emit, sep);
        }
    }

    // Call f; true if it did not throw a std::exception
    template<typename F>
    auto succeeds(F&& f, std::string* what = nullptr) -> bool
    {
        try
        {
            f();
            return true;
        }
        catch (std::exception const& e)
        {
            if (what)
            {
                *what = e.what();
            }
            return false;
        }
    }

}  // namespace mc

void enumerate(std::string const& tier, mc::Emit const& emit);
void run(std::string const& c, mc::Rec& rec);
std::string crash_key(std::string const& c);

#ifndef MC_BATCH
#define MC_BATCH 100
#endif
#ifndef MC_TIMEOUT
#define MC_TIMEOUT 20
#endif

namespace mc {

    using Item = std::pair<long, std::string>;

    inline auto child(std::vector<Item> const& items, std::string const& root, int timeout, Rec& into, std::string& why)
        -> bool
    {
        int fd[2];
        if (pipe(fd) != 0)
        {
            why = "no pipe";
            return false;
        }
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            if (!std::getenv("VERIF_DEBUG"))
            {
                int n = open("/dev/null", O_WRONLY);
                dup2(n, 1);
                dup2(n, 2);
            }
            signal(SIGALRM, SIG_DFL);
            alarm(timeout);
            Rec rec;
            rec.scratch = root + "/c" + std::to_string(getpid());
            std::filesystem::create_directories(rec.scratch);
            if (chdir(rec.scratch.c_str()) != 0)
            {
                _exit(98);
            }
            for (auto const& [i, c] : items)
            {
                rec.index = i;
                rec.c = c;
                ++rec.evaluations;
                try
                {
                    run(c, rec);
                }
                catch (std::exception const& e)
                {
                    rec.violation("unexpected-exception " + crash_key(c), e.what());
                }
            }
            auto b = pack(rec);
            std::size_t done = 0;
            while (done < b.size())
            {
                auto n = write(fd[1], b.data() + done, b.size() - done);
                if (n <= 0)
                {
                    _exit(97);
                }
                done += n;
            }
            _exit(0);
        }
        close(fd[1]);
        std::string b;
        char buf[65536];
        ssize_t n = 0;
        while ((n = read(fd[0], buf, sizeof(buf))) > 0)
        {
            b.append(buf, n);
        }
        close(fd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        std::error_code ec;
        std::filesystem::remove_all(root + "/c" + std::to_string(pid), ec);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        {
            into.merge(unpack(b));
            return true;
        }
        if (WIFSIGNALED(status))
        {
            why = WTERMSIG(status) == SIGALRM ? "hang" : "killed by signal " + std::to_string(WTERMSIG(status));
        }
        else
        {
            why = "exit status " + std::to_string(WEXITSTATUS(status));
        }
        return false;
    }

    inline void record_crash(Rec& rec, Item const& item, std::string const& why)
    {
        ++rec.evaluations;
        rec.index = item.first;
        rec.c = item.second;
        rec.violation(
            "crash:" + crash_key(item.second), "the process running the case ended abnormally: " + why);
    }

    inline auto scratch_root() -> std::string
    {
        std::string t = access("/dev/shm", W_OK) == 0 ? "/dev/shm/verif_XXXXXX" : "/tmp/verif_XXXXXX";
        if (!mkdtemp(t.data()))
        {
            std::exit(3);
        }
        return t;
    }

    inline auto main(int argc, char** argv) -> int
    {
        std::map<std::string, std::string> a;
        for (int i = 1; i < argc; ++i)
        {
            std::string k = argv[i];
            if (k == "--samples")
            {
                a[k] = "1";
            }
            else if (i + 1 < argc)
            {
                a[k] = argv[++i];
            }
        }
        auto const tier = a.contains("--tier") ? a["--tier"] : "quick";
        if (a.contains("--samples"))
        {
            long n = 0;
            enumerate(tier, [&](std::string const& c) {
                if (n == 0 || n == 7 || n == 101 || n == 1009 || n == 5003)
                {
                    std::printf("%s\n", c.c_str());
                }
                ++n;
            });
            return 0;
        }
        auto const root = scratch_root();
        int rc = 0;
        if (a.contains("--replay"))
        {
            Rec rec;
            std::string why;
            auto c = a["--replay"];
            if (!child({{0, c}}, root, 3 * MC_TIMEOUT, rec, why))
            {
                record_crash(rec, {0, c}, why);
            }
            for (auto const& [k, v] : rec.violations)
            {
                auto m = v.message;
                for (auto& ch : m)
                {
                    ch = ch == '\n' ? ' ' : ch;
                }
                std::printf("VIOL\t%s\t%s\n", k.c_str(), m.c_str());
            }
        }
        else
        {
            long const shard = std::stol(a["--shard"]), nshards = std::stol(a["--nshards"]);
            double const deadline = std::time(nullptr) + std::stod(a["--seconds"]);
            Rec rec;
            long index = 0, capped = 0, crashes = 0;
            std::vector<Item> batch;
            auto flush = [&]() {
                if (batch.empty())
                {
                    return;
                }
                std::string why;
                if (!child(batch, root, MC_TIMEOUT + 2 * MC_BATCH, rec, why))
                {
                    for (auto const& item : batch)
                    {
                        if (crashes > 100)
                        {
                            ++capped;
                        }
                        else if (!child({item}, root, MC_TIMEOUT, rec, why))
                        {
                            ++crashes;
                            record_crash(rec, item, why);
                        }
                    }
                }
                batch.clear();
            };
            enumerate(tier, [&](std::string const& c) {
                if (index % nshards == shard)
                {
                    if (crashes > 100 || std::time(nullptr) > deadline)
                    {
                        ++capped;
                    }
                    else
                    {
                        batch.emplace_back(index, c);
                        if (batch.size() >= MC_BATCH)
                        {
                            flush();
                        }
                    }
                }
                ++index;
            });
            flush();
            auto const out = a["--out"];
            {
                std::ofstream f(out + ".tmp");
                f << "{\"evaluations\": " << rec.evaluations << ", \"transitions\": " << rec.transitions
                  << ", \"traces\": " << rec.traces << ", \"capped\": " << capped << ", \"states\": [";
                bool first = true;
                for (auto s : rec.states) f << (first ? "" : ",") << s, first = false;
                f << "], \"outcomes\": [";
                first = true;
                for (auto s : rec.outcomes) f << (first ? "" : ",") << s, first = false;
                f << "], \"violations\": {";
                first = true;
                for (auto const& [k, v] : rec.violations)
                {
                    f << (first ? "" : ", ") << "\"" << esc(k) << "\": [" << v.index << ", \"" << esc(v.c) << "\", \""
                      << esc(v.message) << "\"]";
                    first = false;
                }
                f << "}, \"counters\": {";
                first = true;
                for (auto const& [k, v] : rec.counters)
                {
                    f << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
                    first = false;
                }
                f << "}}\n";
            }
            std::filesystem::rename(out + ".tmp", out);
        }
        std::error_code ec;
        std::filesystem::remove_all(root, ec);
        return rc;
    }

}  // namespace mc

#define MC_MAIN                                                                                                        \
    int main(int argc, char** argv)                                                                                    \
    {                                                                                                                  \
        return mc::main(argc, argv);                                                                                   \
    }
