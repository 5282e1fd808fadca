// Deviation-bounded exhaustive explorer.
//
// A unit is a deterministic function which asks Ctx::choose(n) whenever it has to make a decision. Alternative 0 is the
// default. The explorer enumerates *every* choice sequence whose accumulated cost (1 per non-default alternative, 0 for
// points created via free()) is within the bound of the unit. Each unit (or shard of a unit) runs in a forked child so
// crashes and sanitizer reports can be attributed to the choice sequence kept in shared memory.
#ifndef MC_H
#define MC_H

#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Fail : std::exception {
    std::string sig, msg;
    Fail(std::string s, std::string m)
        : sig(std::move(s))
        , msg(std::move(m))
    {
    }
    const char *what() const noexcept override { return msg.c_str(); }
};

inline std::string printable(const std::string &s, std::size_t max = 300)
{
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > max) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c == '\\') {
            r += "\\\\";
        } else if (c >= 0x20 && c < 0x7f) {
            r += static_cast<char>(c);
        } else {
            char b[8];
            std::snprintf(b, sizeof(b), "\\x%02x", c);
            r += b;
        }
    }
    return r;
}

inline std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    const auto *b = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i != n; ++i) {
        h = (h ^ b[i]) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}
inline std::uint64_t hashStr(const std::string &s, std::uint64_t h = 1469598103934665603ull)
{
    return hashBytes(s.data(), s.size(), h);
}

struct Point {
    std::uint32_t n, chosen, cost;
};

struct Shared {
    volatile std::uint32_t active, len;
    volatile std::uint32_t choices[4096];
    volatile std::uint64_t executions;
};

class Ctx {
public:
    std::vector<std::uint32_t> prefix;
    std::vector<std::uint32_t> prefixN; // expected number of alternatives when replaying
    std::vector<Point> points;
    std::string desc; // description of the current case (for samples and reports)
    std::string sigPrefix;
    std::vector<std::uint64_t> states;
    std::uint64_t steps = 0; // number of implementation calls which have been validated against the model
    Shared *shared = nullptr;
    int muted = 0;
    bool echo = false; // print descriptions immediately (replay)

    void describe(std::string d)
    {
        desc = std::move(d);
        if (echo) {
            std::cout << "REPLAY case: " << printable(desc, 2000) << std::endl;
        }
    }

    std::uint32_t choose(std::uint32_t n, std::uint32_t cost = 1)
    {
        if (n <= 1 || muted) {
            return 0;
        }
        const auto pos = points.size();
        std::uint32_t c = 0;
        if (pos < prefix.size()) {
            c = prefix[pos];
            if (c >= n || (pos < prefixN.size() && prefixN[pos] != n)) {
                throw std::logic_error("mc: divergence when replaying choices at point " + std::to_string(pos));
            }
        }
        points.push_back({ n, c, cost });
        if (shared && pos < 4096) {
            shared->choices[pos] = c;
            shared->len = static_cast<std::uint32_t>(pos + 1);
        }
        return c;
    }
    std::uint32_t free(std::uint32_t n) { return choose(n, 0); }
    bool flip() { return choose(2) != 0; }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + choose(static_cast<std::uint32_t>(l.size()))); }
    template <typename T> const T &pick(const std::vector<T> &l) { return l[choose(static_cast<std::uint32_t>(l.size()))]; }
    template <typename T> const T &pickFree(const std::vector<T> &l) { return l[free(static_cast<std::uint32_t>(l.size()))]; }
    void state(std::uint64_t h) { states.push_back(h); }
    void state(const std::string &s) { states.push_back(hashStr(s)); }
    [[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Fail(sig, msg); }
    void check(bool ok, const char *sig, const std::string &msg = std::string())
    {
        ++steps;
        if (!ok) {
            throw Fail(sig, msg);
        }
    }
};

struct Unit {
    std::string name;
    int bound = 1;
    std::function<void(Ctx &)> fn;
    int shards = 1;
};

struct Violation {
    std::vector<std::uint32_t> choices;
    unsigned deviations = 0;
    std::string sig, msg, desc;
};

struct UnitResult {
    std::uint64_t executions = 0, transitions = 0, steps = 0;
    unsigned completedBound = 0;
    std::unordered_set<std::uint64_t> states;
    std::vector<Violation> violations;
    std::uint64_t violationCount = 0;
    std::vector<std::string> samples;
    std::map<std::string, std::uint64_t> sigs;
    bool error = false;
    std::string errorText;
    bool capped = false;
};

inline std::uint64_t &executionCap()
{
    static std::uint64_t c = 0;
    return c;
}

inline bool runOnce(Ctx &ctx, const Unit &unit, Violation *v, std::string *error)
{
    try {
        unit.fn(ctx);
        return true;
    } catch (const Fail &f) {
        v->sig = f.sig;
        v->msg = f.msg;
    } catch (const std::logic_error &e) {
        if (!std::strncmp(e.what(), "mc: ", 4)) {
            *error = e.what();
            return true;
        }
        v->sig = "unexpected-exception";
        v->msg = std::string("unexpected std::logic_error: ") + e.what();
    } catch (const std::exception &e) {
        v->sig = "unexpected-exception";
        v->msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
        v->sig = "unexpected-exception";
        v->msg = "unexpected exception of unknown type";
    }
    for (const auto &p : ctx.points) {
        v->choices.push_back(p.chosen);
        v->deviations += p.chosen && p.cost;
    }
    v->desc = ctx.desc;
    return false;
}

struct Explorer {
    const Unit &unit;
    UnitResult &res;
    Shared *shared;
    int shard, shards, bound;
    std::uint64_t topLevel = 0;
    unsigned timeout = 30;

    void explore(const std::vector<std::uint32_t> &prefix, const std::vector<std::uint32_t> &prefixN, int depth)
    {
        if (res.error) {
            return;
        }
        if (executionCap() && res.executions >= executionCap()) {
            res.capped = true;
            return;
        }
        Ctx ctx;
        ctx.prefix = prefix;
        ctx.prefixN = prefixN;
        ctx.shared = shared;
        shared->len = 0;
        shared->active = 1;
        ++res.executions;
        shared->executions = res.executions;
        alarm(timeout);
        Violation v;
        std::string error;
        const auto ok = runOnce(ctx, unit, &v, &error);
        alarm(0);
        shared->active = 0;
        if (!error.empty()) {
            res.error = true;
            res.errorText = error;
            return;
        }
        if (ctx.points.size() < prefix.size()) {
            res.error = true;
            res.errorText = "mc: execution ended before the prefix was consumed";
            return;
        }
        // the root execution is run by all shards (to learn its points) but only accounted for by the first one
        const auto account = depth > 0 || shard == 0;
        if (account) {
            res.steps += ctx.steps;
            res.transitions += ctx.points.size() - (prefix.empty() ? 0 : prefix.size() - 1);
            for (auto s : ctx.states) {
                res.states.insert(s);
            }
            if (ok) {
                const auto n = res.executions;
                if (!ctx.desc.empty() && (n == 1 || n == 10 || n == 100 || n == 1000)) {
                    res.samples.emplace_back(ctx.desc);
                }
            } else {
                ++res.violationCount;
                const auto seen = ++res.sigs[v.sig];
                auto worst = res.violations.end();
                if (seen <= 3) {
                    res.violations.emplace_back(std::move(v));
                } else {
                    for (auto i = res.violations.begin(); i != res.violations.end(); ++i) {
                        if (i->sig == v.sig && i->deviations > v.deviations && (worst == res.violations.end() || i->deviations > worst->deviations)) {
                            worst = i;
                        }
                    }
                    if (worst != res.violations.end()) {
                        *worst = std::move(v);
                    }
                }
                if (res.violationCount >= 2000) {
                    res.capped = true;
                    if (!executionCap()) {
                        executionCap() = 1;
                    }
                    return;
                }
            }
        }
        // enumerate alternatives of all points behind the prefix
        int cost = 0;
        std::vector<std::uint32_t> next, nextN;
        next.reserve(ctx.points.size());
        nextN.reserve(ctx.points.size());
        for (std::size_t i = 0; i != ctx.points.size(); ++i) {
            const auto &p = ctx.points[i];
            if (i >= prefix.size()) {
                const auto c = cost + static_cast<int>(p.cost);
                if (c <= bound) {
                    next.push_back(0);
                    nextN.push_back(p.n);
                    for (std::uint32_t alt = 1; alt < p.n; ++alt) {
                        if (depth == 0 && shards > 1 && static_cast<int>(topLevel++ % static_cast<std::uint64_t>(shards)) != shard) {
                            continue;
                        }
                        next.back() = alt;
                        explore(next, nextN, depth + 1);
                    }
                    next.pop_back();
                    nextN.pop_back();
                }
            }
            next.push_back(p.chosen);
            nextN.push_back(p.n);
            if (p.chosen) {
                cost += static_cast<int>(p.cost);
            }
        }
    }
};

inline void jsonStr(std::ostream &os, const std::string &s)
{
    os << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            os << '\\' << c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            os << b;
        } else {
            os << c;
        }
    }
    os << '"';
}

inline void writeViolation(std::ostream &os, const Violation &v)
{
    os << "{\"sig\":";
    jsonStr(os, v.sig);
    os << ",\"msg\":";
    jsonStr(os, v.msg.size() > 6000 ? v.msg.substr(0, 6000) : v.msg);
    os << ",\"desc\":";
    jsonStr(os, v.desc.size() > 3000 ? v.desc.substr(0, 3000) : v.desc);
    os << ",\"deviations\":" << v.deviations << ",\"choices\":[";
    for (std::size_t i = 0; i != v.choices.size(); ++i) {
        os << (i ? "," : "") << v.choices[i];
    }
    os << "]}";
}

inline std::string readFile(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// exit codes: 0 no violation, 1 violation(s) found, 3 error of the harness itself
inline int run(int argc, char **argv, const std::vector<Unit> &units)
{
    std::string out, replayUnit, filter;
    std::vector<std::uint32_t> replayChoices;
    int jobs = 1, boundDelta = 0;
    unsigned timeout = 30;
    bool list = false, replayWhole = false;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--out") {
            out = argv[++i];
        } else if (a == "--jobs") {
            jobs = std::atoi(argv[++i]);
        } else if (a == "--bound-delta") {
            boundDelta = std::atoi(argv[++i]);
        } else if (a == "--timeout") {
            timeout = static_cast<unsigned>(std::atoi(argv[++i]));
        } else if (a == "--cap") {
            executionCap() = std::strtoull(argv[++i], nullptr, 10);
        } else if (a == "--filter") {
            filter = argv[++i];
        } else if (a == "--list") {
            list = true;
        } else if (a == "--replay") {
            replayUnit = argv[++i];
            std::stringstream ss(argv[++i]);
            for (std::string t; std::getline(ss, t, ',');) {
                if (!t.empty()) {
                    replayChoices.push_back(static_cast<std::uint32_t>(std::strtoul(t.c_str(), nullptr, 10)));
                }
            }
        } else if (a == "--replay-unit") {
            replayUnit = argv[++i];
            replayWhole = true;
        }
    }
    if (list) {
        for (const auto &u : units) {
            std::cout << u.name << '\n';
        }
        return 0;
    }
    if (!replayUnit.empty() && !replayWhole) {
        for (const auto &u : units) {
            if (u.name != replayUnit) {
                continue;
            }
            std::string first;
            for (int round = 0; round != 2; ++round) {
                Ctx ctx;
                ctx.prefix = replayChoices;
                ctx.echo = !round;
                Violation v;
                std::string error;
                alarm(timeout * 2);
                const auto ok = runOnce(ctx, u, &v, &error);
                alarm(0);
                if (!error.empty()) {
                    std::cout << error << '\n';
                    return 3;
                }
                if (ok) {
                    std::cout << "REPLAY ok unit=" << u.name << " case: " << printable(ctx.desc, 2000) << '\n';
                    return 0;
                }
                const auto text = v.sig + ": " + v.msg;
                if (round && v.sig != first) {
                    std::cout << "REPLAY: observations differ between two executions\n";
                }
                first = v.sig;
                if (round) {
                    std::cout << "REPLAY violation unit=" << u.name << "\n  case: " << printable(v.desc, 2000) << "\n  " << printable(text, 3000)
                              << '\n';
                }
            }
            return 1;
        }
        std::cout << "no such unit: " << replayUnit << '\n';
        return 3;
    }

    struct Job {
        const Unit *unit;
        int shard, shards;
    };
    std::vector<Job> todo;
    for (const auto &u : units) {
        if ((!filter.empty() && u.name.find(filter) == std::string::npos) || (replayWhole && u.name != replayUnit)) {
            continue;
        }
        for (int s = 0; s < u.shards; ++s) {
            todo.push_back({ &u, s, u.shards });
        }
    }
    struct Running {
        Job job;
        pid_t pid;
        Shared *shared;
        std::string file, err;
        int attempt = 0;
    };
    std::vector<Running> running;
    std::map<std::string, UnitResult> results;
    std::vector<std::string> order;
    for (const auto &j : todo) {
        if (results.emplace(j.unit->name, UnitResult()).second) {
            order.push_back(j.unit->name);
        }
    }
    const std::string base = (out.empty() ? std::string("mc-out") : out) + ".part" + std::to_string(getpid()) + ".";
    std::size_t next = 0, fileNo = 0;
    bool harnessError = false;
    const auto start = [&](const Job &job, int attempt) {
        Running r{ job, 0, nullptr, base + std::to_string(fileNo), base + std::to_string(fileNo) + ".err", attempt };
        ++fileNo;
        r.shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::cout.flush();
        r.pid = fork();
        if (r.pid < 0) {
            std::perror("fork");
            std::exit(3);
        }
        if (!r.pid) {
            const int fd = open(r.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd >= 0) {
                dup2(fd, 2);
                dup2(fd, 1);
                close(fd);
            }
            UnitResult res;
            Explorer e{ *job.unit, res, r.shared, job.shard, job.shards, job.unit->bound + boundDelta };
            e.timeout = timeout * (attempt ? 4u : 1u);
            e.explore({}, {}, 0);
            std::ofstream f(r.file, std::ios::binary);
            f << res.executions << ' ' << res.transitions << ' ' << res.steps << ' ' << res.violationCount << ' ' << res.capped << ' ' << res.error
              << ' ' << res.states.size() << ' ' << res.violations.size() << ' ' << res.samples.size() << '\n';
            const auto str = [&f](const std::string &s) { f << s.size() << ' ' << s; };
            str(res.errorText);
            for (auto s : res.states) {
                f.write(reinterpret_cast<const char *>(&s), sizeof(s));
            }
            for (const auto &v : res.violations) {
                str(v.sig);
                str(v.msg);
                str(v.desc);
                f << v.deviations << ' ' << v.choices.size() << ' ';
                for (auto c : v.choices) {
                    f << c << ' ';
                }
            }
            for (const auto &s : res.samples) {
                str(s);
            }
            f.close();
            _exit(f ? 0 : 3);
        }
        running.push_back(r);
    };
    while (next < todo.size() || !running.empty()) {
        while (next < todo.size() && static_cast<int>(running.size()) < jobs) {
            start(todo[next++], 0);
        }
        int status = 0;
        const pid_t pid = wait(&status);
        if (pid < 0) {
            if (errno == EINTR) {
                continue;
            }
            std::perror("wait");
            return 3;
        }
        const auto it = std::find_if(running.begin(), running.end(), [pid](const Running &r) { return r.pid == pid; });
        if (it == running.end()) {
            continue;
        }
        const Running r = *it;
        running.erase(it);
        auto &res = results[r.job.unit->name];
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            std::ifstream f(r.file, std::ios::binary);
            std::uint64_t ex = 0, tr = 0, st = 0, vc = 0;
            int capped = 0, error = 0;
            std::size_t states = 0, violations = 0, samples = 0;
            f >> ex >> tr >> st >> vc >> capped >> error >> states >> violations >> samples;
            const auto str = [&f] {
                std::size_t n = 0;
                f >> n;
                f.get();
                std::string s(n, '\0');
                f.read(s.data(), static_cast<std::streamsize>(n));
                return s;
            };
            const auto errorText = str();
            for (std::size_t i = 0; i != states; ++i) {
                std::uint64_t h = 0;
                f.read(reinterpret_cast<char *>(&h), sizeof(h));
                res.states.insert(h);
            }
            for (std::size_t i = 0; i != violations; ++i) {
                Violation v;
                v.sig = str();
                v.msg = str();
                v.desc = str();
                std::size_t n = 0;
                f >> v.deviations >> n;
                v.choices.resize(n);
                for (auto &c : v.choices) {
                    f >> c;
                }
                f.get();
                res.violations.emplace_back(std::move(v));
            }
            for (std::size_t i = 0; i != samples; ++i) {
                res.samples.emplace_back(str());
            }
            if (!f) {
                std::cerr << "unable to read results of " << r.job.unit->name << '\n';
                harnessError = true;
            }
            res.executions += ex - (r.job.shard ? 1 : 0);
            res.transitions += tr;
            res.steps += st;
            res.violationCount += vc;
            res.capped = res.capped || capped;
            if (error) {
                res.error = true;
                res.errorText = errorText;
            }
        } else {
            const auto sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
            if (sig == SIGKILL) {
                // most likely out of memory; that is no statement about the property
                std::cerr << "unit " << r.job.unit->name << " was killed\n";
                harnessError = true;
            } else if (sig == SIGALRM && r.attempt == 0) {
                start(r.job, 1); // re-run with a longer limit before calling it a hang
            } else {
                Violation v;
                v.sig = sig == SIGALRM ? "hang" : "crash";
                auto err = readFile(r.err);
                const auto pos = std::min(err.find("ERROR: "), err.find("runtime error"));
                if (pos != std::string::npos) {
                    err = err.substr(pos > 200 ? pos - 200 : 0, 3500);
                } else if (err.size() > 2500) {
                    err = err.substr(err.size() - 2500);
                }
                v.msg = (sig ? "killed by signal " + std::to_string(sig) : "exited with status " + std::to_string(WEXITSTATUS(status))) + ": " + err;
                for (std::uint32_t i = 0, n = std::min<std::uint32_t>(static_cast<std::uint32_t>(r.shared->len), 4096); i != n; ++i) {
                    v.choices.push_back(static_cast<std::uint32_t>(r.shared->choices[i]));
                    v.deviations += r.shared->choices[i] != 0;
                }
                if (!r.shared->active) {
                    v.msg = "(not within an execution) " + v.msg;
                }
                res.executions += r.shared->executions;
                ++res.violationCount;
                res.violations.emplace_back(std::move(v));
                res.capped = true;
            }
        }
        munmap(r.shared, sizeof(Shared));
        unlink(r.file.c_str());
        unlink(r.err.c_str());
    }

    std::ofstream fileStream;
    if (!out.empty()) {
        fileStream.open(out, std::ios::binary);
    }
    std::ostream &os = out.empty() ? std::cout : fileStream;
    bool any = false;
    os << "{\"units\":[";
    for (std::size_t i = 0; i != order.size(); ++i) {
        auto &res = results[order[i]];
        std::sort(res.violations.begin(), res.violations.end(), [](const Violation &a, const Violation &b) { return a.deviations < b.deviations; });
        any = any || !res.violations.empty();
        harnessError = harnessError || res.error;
        int bound = 0;
        for (const auto &u : units) {
            if (u.name == order[i]) {
                bound = u.bound + boundDelta;
            }
        }
        os << (i ? "," : "") << "\n{\"name\":";
        jsonStr(os, order[i]);
        os << ",\"bound\":" << bound << ",\"executions\":" << res.executions << ",\"transitions\":" << res.transitions << ",\"steps\":" << res.steps
           << ",\"states\":" << res.states.size() << ",\"violationCount\":" << res.violationCount << ",\"capped\":" << (res.capped ? "true" : "false")
           << ",\"error\":";
        jsonStr(os, res.errorText);
        os << ",\"samples\":[";
        for (std::size_t k = 0; k != res.samples.size() && k < 4; ++k) {
            os << (k ? "," : "");
            jsonStr(os, printable(res.samples[k], 400));
        }
        os << "],\"violations\":[";
        for (std::size_t k = 0; k != res.violations.size(); ++k) {
            os << (k ? "," : "");
            writeViolation(os, res.violations[k]);
        }
        os << "]}";
    }
    os << "\n]}\n";
    os.flush();
    if (!os || harnessError) {
        return 3;
    }
    return any ? 1 : 0;
}

} // namespace mc

#endif
