// Small property-based-testing engine: choice-sequence generators, forked
// workers (so that crashes, sanitizer aborts and hangs of the code under test
// are observed, not suffered), shrinking on the choice sequence, replay files,
// evidence.  Every property is a function `void prop(pbt::Ctx&)` that draws its
// input from ctx and throws pbt::Failure when the oracle disagrees.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
    std::string msg;
};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

constexpr size_t kMaxChoices = 1 << 15;

struct Slot {
    std::atomic<uint64_t> case_index;
    std::atomic<uint64_t> start_ns;
    std::atomic<uint64_t> evals;
    std::atomic<uint64_t> nontrivial;
    std::atomic<uint64_t> discards;
    std::atomic<uint64_t> nchoices;
    std::atomic<int> done;
    uint64_t choices[kMaxChoices];
    char render[16384];
    char msg[8192];
};

inline uint64_t now_ns() {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

// Coverage of the code under test, where that was compiled with -fsanitize-coverage=trace-pc (build variant "cov"):
// pairs of consecutive blocks per thread, counted, as in AFL.
struct Coverage {
    static constexpr size_t kSize = 1 << 16;
    static inline uint8_t hits[kSize];
    static inline uint8_t seen[kSize];
    static inline thread_local uintptr_t before = 0;
    static void clear() {
        memset(hits, 0, sizeof hits);
        before = 0;
    }
    static uint8_t bucket(uint8_t n) {
        return n < 4 ? 1u << (n - 1) : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
    }
    // how many (pair, count) features the last case showed for the first time
    static size_t fresh() {
        size_t n = 0;
        for (size_t i = 0; i < kSize; i += 8) {
            uint64_t w;
            memcpy(&w, hits + i, 8);
            if (!w) continue;
            for (size_t k = i; k < i + 8; ++k) {
                if (!hits[k]) continue;
                uint8_t b = bucket(hits[k]);
                if (seen[k] & b) continue;
                seen[k] |= b;
                ++n;
            }
        }
        return n;
    }
    static size_t total() {
        size_t n = 0;
        for (uint8_t b : seen) n += b != 0;
        return n;
    }
};

class Ctx {
public:
    // ---- random source -------------------------------------------------
    // Uniform value in [0, bound]; 0 is the "simplest" value.
    uint64_t draw(uint64_t bound) {
        if (bound == 0) return 0;
        uint64_t v;
        if (replay) {
            v = pos < choices.size() ? choices[pos] : 0;
            if (v > bound) v = bound;
        } else if (pos < choices.size()) {
            // a mutated sequence of choices; what follows its end is random again
            v = choices[pos];
            if (v > bound) v %= bound + 1;
        } else {
            if (pos >= kMaxChoices - 1) {
                v = 0;
            } else {
                uint64_t r = splitmix(rng);
                v = bound == UINT64_MAX ? r : (uint64_t)(((__uint128_t)r * (bound + 1)) >> 64);
            }
        }
        ++pos;
        if (used.size() < kMaxChoices - 1) {
            used.push_back(v);
            if (slot) {
                slot->choices[used.size() - 1] = v;
                slot->nchoices.store(used.size(), std::memory_order_relaxed);
            }
        }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    size_t index(size_t n) { return (size_t)draw(n - 1); }
    bool boolean() { return draw(1) != 0; }
    // true with probability num/den; shrinks towards false
    bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + index(v.size())); }
    // Weighted alternative, first one is the simplest.
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned sum = 0;
        for (auto x : w) sum += x;
        uint64_t v = draw(sum - 1);
        size_t i = 0;
        for (auto x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    // An interesting 64-bit integer.
    int64_t int64() {
        switch (weighted({6, 4, 4, 3, 2})) {
        case 0: return range(0, 16);
        case 1: return -range(0, 16);
        case 2: {
            static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX,
                                        INT32_MIN, (int64_t)UINT32_MAX, 1ll << 32, -(1ll << 32), 1ll << 31,
                                        1ll << 62, -(1ll << 62), 3037000500ll, -3037000500ll, 3037000499ll,
                                        4294967297ll, 0x5555555555555555ll, (int64_t)0xaaaaaaaaaaaaaaaaull};
            return k[index(sizeof(k) / sizeof(*k))];
        }
        case 3: {
            int b = (int)range(0, 63);
            return (int64_t)((1ull << b) + (uint64_t)range(-2, 2));
        }
        default: return (int64_t)draw(UINT64_MAX);
        }
    }

    // ---- outcome -------------------------------------------------------
    void nontrivial() { is_nontrivial = true; }
    void discard() { throw Discard{}; }
    [[noreturn]] void fail(const std::string& m) {
        if (slot) {
            // end the process at once: other threads of the case may still be running
            snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str());
            if (counting) slot->evals++;
            _exit(77);
        }
        throw Failure{m};
    }
    void check(bool c, const std::string& m) {
        if (!c) fail(m);
    }
    // Human-readable rendering of the case: kept in shared memory so that it survives a crash.
    void note(const std::string& s) {
        rendered += s;
        if (slot) {
            size_t n = std::min(rendered.size(), sizeof(slot->render) - 1);
            memcpy(slot->render, rendered.data(), n);
            slot->render[n] = 0;
        }
    }
    void label(const std::string& l) { labels.insert(l); }
    // A deviation that is a recorded finding (known-findings.txt) is noted and tolerated, otherwise it fails.
    void known(const std::string& key, const std::string& m) {
        if (!known_keys().count(key)) fail(m + " [" + key + "]");
        labels.insert("known-finding:" + key);
    }
    static std::map<std::string, std::pair<std::string, std::string>>& known_keys() {  // key -> property, text
        static std::map<std::string, std::pair<std::string, std::string>> k;
        return k;
    }

    bool replay = false;
    bool counting = false;
    uint64_t rng = 0;
    std::vector<uint64_t> choices;
    size_t pos = 0;
    std::vector<uint64_t> used;
    Slot* slot = nullptr;
    bool is_nontrivial = false;
    std::string rendered;
    std::set<std::string> labels;
};

using Prop = std::function<void(Ctx&)>;

struct Config {
    std::string property;
    std::string rule;
    std::vector<std::string> assumptions;
    std::string level = "exploration";
    uint64_t quick_cases = 1000;
    uint64_t thorough_cases = 100000;
    double quick_secs = 60;
    double thorough_secs = 1200;
    double case_timeout = 20;  // wall seconds for a single case before it is a hang
    int jobs = 0;              // 0: number of cores
    bool hang_is_failure = true;
    std::function<void(std::map<std::string, std::string>&)> extra_coverage;
};

enum class Outcome { Ok, Discarded, Fail, Crash, Hang };

struct RunResult {
    Outcome outcome = Outcome::Ok;
    std::string msg;
    std::string render;
    std::vector<uint64_t> used;
};

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += (char)c;
        }
    }
    return o;
}

inline std::string read_file(const std::string& p, size_t max = 1 << 20) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > max) s.resize(max);
    return s;
}

class Runner {
public:
    Runner(Config cfg, Prop prop) : cfg_(std::move(cfg)), prop_(std::move(prop)) {}

    int main(int argc, char** argv) {
        std::string replay_path;
        uint64_t cases_override = 0;
        double secs_override = 0;
        uint64_t only_index = UINT64_MAX;
        const char* t = getenv("VERIF_TIER");
        tier_ = t && std::string(t) == "thorough" ? "thorough" : "quick";
        const char* sd = getenv("VERIF_SEED");
        seed_ = sd && *sd ? strtoull(sd, nullptr, 10) : 1;
        std::string verif = ".";
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--replay") replay_path = next();
            else if (a == "--cases") cases_override = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--secs") secs_override = atof(next().c_str());
            else if (a == "--seed") seed_ = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier") tier_ = next();
            else if (a == "--jobs") cfg_.jobs = atoi(next().c_str());
            else if (a == "--verif") verif = next();
            else if (a == "--index") only_index = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tag") tag_ = "-" + next();  // a second program of the same check: its own evidence and replay files
            else if (a == "--no-shrink") no_shrink_ = true;
            else if (a == "--guided") guided_ = true;
        }
        verif_ = verif;
        workdir_ = verif_ + "/build/run";
        mkdirs(workdir_);
        mkdirs(verif_ + "/evidence");
        mkdirs(verif_ + "/replays");
        load_known();
        signal(SIGPIPE, SIG_IGN);
        uint64_t cases = tier_ == "thorough" ? cfg_.thorough_cases : cfg_.quick_cases;
        double secs = tier_ == "thorough" ? cfg_.thorough_secs : cfg_.quick_secs;
        if (cases_override) cases = cases_override;
        if (secs_override > 0) secs = secs_override;
        if (!replay_path.empty()) return do_replay(replay_path);
        if (only_index != UINT64_MAX) {
            Ctx c;
            c.rng = case_seed(only_index);
            run_inline(c);
            return 0;
        }
        return explore(cases, secs);
    }

private:
    // lines "open: property=<id> key=<key> <what fails>"
    void load_known() {
        std::ifstream f(verif_ + "/known-findings.txt");
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream ls(line);
            std::string kind, prop, key, rest;
            ls >> kind >> prop >> key;
            if (kind != "open:" || prop.rfind("property=", 0) || key.rfind("key=", 0)) continue;
            std::getline(ls, rest);
            Ctx::known_keys()[key.substr(4)] = {prop.substr(9), rest.empty() ? rest : rest.substr(1)};
        }
    }

    static void mkdirs(const std::string& p) {
        std::string cur;
        std::stringstream ss(p);
        std::string part;
        if (!p.empty() && p[0] == '/') cur = "/";
        while (std::getline(ss, part, '/')) {
            if (part.empty()) continue;
            cur += part + "/";
            mkdir(cur.c_str(), 0755);
        }
    }

    uint64_t case_seed(uint64_t idx) const {
        uint64_t s = seed_ * 0x9e3779b97f4a7c15ull + idx * 0xd1342543de82ef95ull + 0x1234567;
        for (char ch : cfg_.property) s = s * 1099511628211ull + (unsigned char)ch;
        splitmix(s);
        return s;
    }

    // Runs in a child process. Returns outcome (Ok/Discard/Fail); crashes do not return.
    Outcome execute(Ctx& c, std::string& msg) {
        try {
            prop_(c);
            return Outcome::Ok;
        } catch (const Discard&) {
            return Outcome::Discarded;
        } catch (const Failure& f) {
            msg = f.msg;
            return Outcome::Fail;
        } catch (const std::exception& e) {
            msg = std::string("unexpected exception escaped: ") + e.what();
            return Outcome::Fail;
        }
    }

    void run_inline(Ctx& c) {
        std::string msg;
        Outcome o = execute(c, msg);
        std::cerr << c.rendered << "\n"
                  << (o == Outcome::Ok ? "OK" : o == Outcome::Discarded ? "DISCARD" : "FAIL: " + msg)
                  << (c.is_nontrivial ? " (nontrivial)" : "") << "\n";
    }

    static Slot* new_slot() {
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(3);
        }
        return new (p) Slot();
    }

    static void child_setup(const std::string& errfile) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0);
        dup2(nul, 1);
        close(nul);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        struct rlimit fl = {64u << 20, 64u << 20};
        setrlimit(RLIMIT_FSIZE, &fl);
    }

    // Runs one choice sequence in a forked child.
    RunResult run_forked(const std::vector<uint64_t>& choices, double timeout) {
        static Slot* slot = new_slot();
        slot->nchoices = 0;
        slot->render[0] = 0;
        slot->msg[0] = 0;
        std::string err = workdir_ + "/" + cfg_.property + ".one.err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(err);
            Ctx c;
            c.replay = true;
            c.choices = choices;
            c.slot = slot;
            std::string msg;
            Outcome o = execute(c, msg);
            if (o == Outcome::Fail) snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
            _exit(o == Outcome::Ok ? 0 : o == Outcome::Discarded ? 76 : 77);
        }
        setpgid(pid, pid);
        RunResult r;
        int status = 0;
        uint64_t t0 = now_ns();
        bool hang = false;
        int spin = 0;
        while (true) {
            pid_t w = waitpid(pid, &status, WNOHANG);
            if (w == pid) break;
            if ((now_ns() - t0) / 1e9 > timeout) {
                hang = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                break;
            }
            usleep(spin++ < 200 ? 200 : 5000);
        }
        kill(-pid, SIGKILL);
        classify(r, status, hang, slot, err);
        return r;
    }

    void classify(RunResult& r, int status, bool hang, Slot* slot, const std::string& err) {
        r.render = slot->render;
        r.used.assign(slot->choices, slot->choices + std::min<uint64_t>(slot->nchoices, kMaxChoices));
        if (hang) {
            r.outcome = Outcome::Hang;
            r.msg = "no result within the case time limit (hang)";
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            r.outcome = Outcome::Ok;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 76) {
            r.outcome = Outcome::Discarded;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
            r.outcome = Outcome::Fail;
            r.msg = slot->msg;
        } else {
            r.outcome = Outcome::Crash;
            std::string e = read_file(err, 1 << 16);
            // keep the interesting head of the report
            if (e.size() > 3000) e.resize(3000);
            r.msg = "the code under test ended the process (" +
                    (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status))
                                         : "exit status " + std::to_string(WEXITSTATUS(status))) +
                    "): " + e;
        }
    }

    bool bad(const RunResult& r) const {
        return r.outcome == Outcome::Fail || r.outcome == Outcome::Crash ||
               (r.outcome == Outcome::Hang && cfg_.hang_is_failure);
    }

    // Shrink the choice sequence: delete blocks, zero blocks, minimise values.
    std::vector<uint64_t> shrink(std::vector<uint64_t> best, double secs, Outcome kind) {
        uint64_t t0 = now_ns();
        double tmo = kind == Outcome::Hang ? cfg_.case_timeout : cfg_.case_timeout;
        auto left = [&] { return (now_ns() - t0) / 1e9 < secs; };
        std::set<std::vector<uint64_t>> seen;
        auto attempt = [&](std::vector<uint64_t> cand) {
            while (!cand.empty() && cand.back() == 0) cand.pop_back();
            if (cand == best || !left()) return false;
            if (!seen.insert(cand).second) return false;
            RunResult r = run_forked(cand, tmo);
            if (!bad(r)) return false;
            if (kind != Outcome::Hang && r.outcome == Outcome::Hang) return false;
            auto u = r.used;
            while (!u.empty() && u.back() == 0) u.pop_back();
            auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
                if (a.size() != b.size()) return a.size() < b.size();
                return a < b;
            };
            if (smaller(u, cand) || u.size() <= cand.size()) cand = std::min(cand, u, smaller);
            if (!smaller(cand, best)) return false;
            best = cand;
            return true;
        };
        bool progress = true;
        while (progress && left()) {
            progress = false;
            for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
                for (size_t i = best.size() + 1; i-- > 0 && left();) {
                    if (i + len > best.size()) continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true;
                }
            }
            // delete a block and decrement an earlier (length-like) choice
            for (size_t i = 0; i < best.size() && left(); ++i) {
                if (best[i] == 0 || best[i] > 64) continue;
                for (size_t len : {1, 2, 3, 4, 5, 6, 8}) {
                    if (i + 1 + len > best.size()) continue;
                    auto c = best;
                    c[i]--;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + len);
                    if (attempt(c)) {
                        progress = true;
                        break;
                    }
                }
            }
            for (size_t len : {16, 4, 1}) {
                for (size_t i = 0; i + len <= best.size() && left(); ++i) {
                    auto c = best;
                    bool any = false;
                    for (size_t k = i; k < i + len; ++k) {
                        any |= c[k] != 0;
                        c[k] = 0;
                    }
                    if (any && attempt(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.size() && left(); ++i) {
                while (i < best.size() && best[i] > 1 && left()) {
                    auto c = best;
                    c[i] /= 2;
                    if (attempt(c)) progress = true;
                    else break;
                }
                if (i < best.size() && best[i] > 0) {
                    auto c = best;
                    c[i]--;
                    if (attempt(c)) progress = true;
                }
            }
        }
        return best;
    }

    int do_replay(const std::string& path) {
        std::ifstream f(path);
        std::string line;
        std::vector<uint64_t> ch;
        bool found = false;
        while (std::getline(f, line)) {
            if (line.rfind("choices:", 0) == 0) {
                std::stringstream ss(line.substr(8));
                uint64_t v;
                while (ss >> v) ch.push_back(v);
                found = true;
            }
        }
        if (!found) {
            std::cerr << "no choices in " << path << "\n";
            return 2;
        }
        RunResult r = run_forked(ch, cfg_.case_timeout * 2);
        std::cout << r.render << "\n";
        if (bad(r)) {
            std::cout << r.msg << "\nVIOLATION property=" << cfg_.property << " replay=" << path << std::endl;
            return 1;
        }
        std::cout << "held\n";
        return 0;
    }

    int explore(uint64_t cases, double secs) {
        uint64_t t0 = now_ns();
        int jobs = cfg_.jobs > 0 ? cfg_.jobs : (int)sysconf(_SC_NPROCESSORS_ONLN);
        if (jobs < 1) jobs = 1;
        if (jobs > 16) jobs = 16;
        struct Worker {
            pid_t pid = -1;
            Slot* slot = nullptr;
            int id = 0;
            std::string err, hashes, samples;
            bool over = false;
        };
        std::vector<Worker> ws(jobs);
        for (int w = 0; w < jobs; ++w) {
            ws[w].slot = new_slot();
            ws[w].id = w;
            std::string base = workdir_ + "/" + cfg_.property + ".w" + std::to_string(w);
            ws[w].err = base + ".err";
            ws[w].hashes = base + ".hashes";
            ws[w].samples = base + ".samples";
            for (auto& f : {ws[w].hashes, ws[w].hashes + ".labels", ws[w].samples}) unlink(f.c_str());
        }
        RunResult failure;
        bool failed = false;
        uint64_t fail_index = UINT64_MAX;
        int unreproduced = 0;
        std::string replay;
        bool resume = false;
    again:
        fflush(nullptr);
        for (auto& w : ws) {
            uint64_t start = resume ? (uint64_t)w.slot->case_index + jobs : w.id;
            double rest = secs - (now_ns() - t0) / 1e9;
            w.slot->start_ns = 0;
            w.over = false;
            pid_t pid = fork();
            if (pid == 0) {
                child_setup(w.err);
                worker(w.slot, start, jobs, cases, rest, w.hashes, w.samples);
                _exit(0);
            }
            setpgid(pid, pid);
            w.pid = pid;
        }
        failed = false;
        fail_index = UINT64_MAX;
        size_t alive = ws.size();
        while (alive) {
            for (auto& w : ws) {
                if (w.over) continue;
                int status = 0;
                pid_t p = waitpid(w.pid, &status, WNOHANG);
                bool hang = false;
                if (p == 0) {
                    uint64_t st = w.slot->start_ns;
                    if (st && now_ns() > st && (now_ns() - st) / 1e9 > cfg_.case_timeout) {
                        hang = true;
                        kill(-w.pid, SIGKILL);
                        kill(w.pid, SIGKILL);
                        waitpid(w.pid, &status, 0);
                        p = w.pid;
                    } else
                        continue;
                }
                kill(-w.pid, SIGKILL);
                w.over = true;
                --alive;
                if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
                RunResult r;
                classify(r, status, hang, w.slot, w.err);
                if (r.outcome == Outcome::Discarded) r.outcome = Outcome::Crash;  // a worker does not end that way itself
                uint64_t idx = w.slot->case_index;
                if (bad(r) && (!failed || idx < fail_index)) {
                    failed = true;
                    failure = r;
                    fail_index = idx;
                }
            }
            if (failed) {
                for (auto& w : ws)
                    if (!w.over) {
                        kill(-w.pid, SIGKILL);
                        kill(w.pid, SIGKILL);
                        int st;
                        waitpid(w.pid, &st, 0);
                        w.over = true;
                        --alive;
                    }
                break;
            }
            usleep(2000);
        }
        if (failed) {
            std::cerr << "[" << cfg_.property << "] case " << fail_index << " failed: " << failure.msg.substr(0, 600) << "\n" << failure.render.substr(0, 1500)
                      << "\n";
            // a failure counts if it shows again from its choices alone: every time for a hang (a slow machine
            // must not look like one), once in ten tries for a wrong answer (races between the case's threads)
            int again = 0, tries = 0;
            RunResult last;
            bool hang = failure.outcome == Outcome::Hang;
            for (; tries < 10; ++tries) {
                RunResult r = run_forked(failure.used, cfg_.case_timeout * (hang ? 2 : 1));
                if (bad(r) && (hang || r.outcome != Outcome::Hang)) {
                    ++again;
                    last = r;
                    if (!hang || again == 3) break;
                } else if (hang)
                    break;
            }
            if (hang ? again < 3 : again < 1) {
                // not replayable: not reported
                ++unreproduced;
                failed = false;
                std::cerr << "[" << cfg_.property << "] did not reproduce; not reported\n";
                if (unreproduced < 20 && (now_ns() - t0) / 1e9 < secs) {
                    resume = true;
                    goto again;
                }
            } else {
                auto best = failure.used;
                if (!no_shrink_) {
                    double budget = tier_ == "thorough" ? 120 : 25;
                    best = shrink(best, budget, last.outcome);
                    RunResult r = run_forked(best, cfg_.case_timeout * 2);
                    if (bad(r)) last = r;
                    else best = failure.used;
                }
                replay = "replays/" + cfg_.property + tag_ + "-" + tier_ + "-" + std::to_string(seed_) + ".txt";
                std::ofstream f(verif_ + "/" + replay);
                f << "property: " << cfg_.property << "\nseed: " << seed_ << "\ncase: " << fail_index << "\nchoices:";
                for (auto v : best) f << " " << v;
                f << "\n--- minimised case ---\n" << last.render << "\n--- what failed ---\n" << last.msg << "\n";
                f.close();
                std::cout << last.render << "\n" << last.msg.substr(0, 4000) << "\n";
            }
        }
        // ---- evidence ----
        uint64_t evals = 0, nontriv = 0, discards = 0;
        std::unordered_set<uint64_t> hashes;
        std::vector<std::string> samples;
        std::map<std::string, uint64_t> labels;
        for (auto& w : ws) {
            evals += w.slot->evals;
            nontriv += w.slot->nontrivial;
            discards += w.slot->discards;
            std::ifstream h(w.hashes, std::ios::binary);
            uint64_t v;
            while (h.read((char*)&v, 8)) hashes.insert(v);
            std::string s = read_file(w.samples, 1 << 16);
            size_t p = 0;
            while (p < s.size()) {
                size_t q = s.find('\0', p);
                if (q == std::string::npos) break;
                if (samples.size() < 6) samples.push_back(s.substr(p, q - p));
                p = q + 1;
            }
            std::ifstream l(w.hashes + ".labels");
            std::string name;
            uint64_t cnt;
            while (l >> cnt && std::getline(l, name)) labels[name.substr(1)] += cnt;
            unlink(w.hashes.c_str());
            unlink((w.hashes + ".labels").c_str());
            unlink(w.samples.c_str());
            if (!failed) unlink(w.err.c_str());
        }
        double wall = (now_ns() - t0) / 1e9;
        {
            std::ofstream e(verif_ + "/evidence/" + cfg_.property + tag_ + ".json");
            e << "{\n \"property\": \"" << cfg_.property << "\",\n \"tier\": \"" << tier_ << "\",\n \"seed\": " << seed_
              << ",\n \"level\": \"" << cfg_.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals
              << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"discarded\": " << discards
              << ",\n  \"unreproduced\": " << unreproduced << ",\n  \"rule\": \"" << json_escape(cfg_.rule)
              << "\",\n  \"classes\": {";
            bool first = true;
            for (auto& [k, v] : labels) {
                e << (first ? "" : ", ") << "\"" << json_escape(k) << "\": " << v;
                first = false;
            }
            e << "},\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); ++i)
                e << (i ? ",\n   " : "\n   ") << "\"" << json_escape(samples[i]) << "\"";
            e << "]\n },\n \"assumptions\": [";
            for (size_t i = 0; i < cfg_.assumptions.size(); ++i)
                e << (i ? ", " : "") << "\"" << json_escape(cfg_.assumptions[i]) << "\"";
            e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (failed ? 1 : 0) << "\n}\n";
        }
        for (auto& [key, pt] : Ctx::known_keys())
            if (pt.first == cfg_.property && labels.count("known-finding:" + key))
                std::cout << "KNOWN-FINDING: property=" << cfg_.property << " " << key << ": " << pt.second << "\n";
        std::cout << "[" << cfg_.property << "] tier=" << tier_ << " seed=" << seed_ << " cases=" << evals
                  << " distinct_nontrivial=" << hashes.size() << " discarded=" << discards << " wall=" << wall << "s"
                  << std::endl;
        if (failed) {
            std::cout << "VIOLATION property=" << cfg_.property << " replay=" << replay << std::endl;
            return 1;
        }
        return 0;
    }

    // A kept sequence of choices, changed in a few places.
    static std::vector<uint64_t> mutated(const std::vector<std::vector<uint64_t>>& corpus, uint64_t& r) {
        auto rnd = [&](uint64_t n) { return n ? splitmix(r) % n : 0; };
        // newer entries are taken more often
        size_t n = corpus.size();
        auto c = corpus[rnd(2) ? rnd(n) : n - 1 - rnd(std::min<size_t>(n, 32))];
        for (uint64_t k = 1 + (rnd(2) ? rnd(8) : 0); k; --k) {
            if (c.empty()) break;
            size_t at = rnd(c.size());
            switch (rnd(8)) {
            case 0: c[at] = splitmix(r); break;
            case 1: c[at] = rnd(16); break;
            case 2: c[at] += rnd(2) ? 1 : -1; break;
            case 3: c[at] = rnd(2) ? 0 : 1ull << rnd(64); break;
            case 4: c.erase(c.begin() + at, c.begin() + std::min(c.size(), at + 1 + rnd(16))); break;
            case 5: {  // repeat a block
                std::vector<uint64_t> b(c.begin() + at, c.begin() + std::min(c.size(), at + 1 + rnd(32)));
                size_t to = rnd(c.size() + 1);
                if (c.size() + b.size() < kMaxChoices / 2) c.insert(c.begin() + to, b.begin(), b.end());
                break;
            }
            case 6: {  // the rest of another one
                const auto& o = corpus[rnd(n)];
                c.resize(at);
                size_t from = o.empty() ? 0 : rnd(2) ? std::min(at, o.size()) : rnd(o.size());
                c.insert(c.end(), o.begin() + from, o.end());
                break;
            }
            default: c.resize(at + 1); break;  // goes on at random
            }
        }
        if (c.size() > kMaxChoices / 2) c.resize(kMaxChoices / 2);
        return c;
    }

    void worker(Slot* slot, uint64_t start, int jobs, uint64_t cases, double secs, const std::string& hashes,
                const std::string& samples) {
        uint64_t t0 = now_ns();
        std::unordered_set<uint64_t> seen;
        std::vector<uint64_t> order;
        std::map<std::string, uint64_t> labels;
        int nsamples = 0;
        std::ofstream sf(samples, std::ios::binary | std::ios::app);
        auto flush = [&] {
            std::ofstream h(hashes, std::ios::binary | std::ios::app);
            for (auto v : order) h.write((const char*)&v, 8);
            order.clear();
            std::ofstream l(hashes + ".labels", std::ios::app);
            for (auto& [k, v] : labels) l << v << " " << k << "\n";
            labels.clear();
            sf.flush();
        };
        uint64_t last_flush = now_ns();
        std::vector<std::vector<uint64_t>> corpus;
        for (uint64_t idx = start; idx < cases; idx += jobs) {
            if ((now_ns() - t0) / 1e9 > secs) break;
            slot->case_index = idx;
            slot->nchoices = 0;
            slot->render[0] = 0;
            slot->start_ns = now_ns();
            Ctx c;
            c.rng = case_seed(idx);
            c.counting = true;
            c.slot = slot;
            if (guided_) {
                uint64_t r = c.rng ^ 0x5bd1e995;
                if (!corpus.empty() && splitmix(r) % 4) c.choices = mutated(corpus, r);
                Coverage::clear();
            }
            std::string msg;
            Outcome o = execute(c, msg);
            slot->start_ns = 0;
            if (guided_ && (o == Outcome::Ok) && Coverage::fresh()) {
                corpus.push_back(c.used);
                if (corpus.size() > 4000) corpus.erase(corpus.begin(), corpus.begin() + 1000);
                labels["kept for new coverage"]++;
            }
            if (o == Outcome::Discarded) {
                slot->discards++;
                continue;
            }
            slot->evals++;
            if (o == Outcome::Fail) {
                snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
                flush();
                _exit(77);
            }
            for (auto& l : c.labels) labels[l]++;
            if (c.is_nontrivial) {
                slot->nontrivial++;
                uint64_t h = 1469598103934665603ull;
                for (auto v : c.used) {
                    h ^= v;
                    h *= 1099511628211ull;
                    h ^= h >> 29;
                }
                if (seen.insert(h).second) order.push_back(h);
                if (nsamples < 1 || (nsamples < 2 && idx > cases / 2)) {
                    ++nsamples;
                    sf << c.rendered.substr(0, 1500) << '\0';
                }
            }
            if ((now_ns() - last_flush) / 1e9 > 5) {
                flush();
                last_flush = now_ns();
            }
        }
        flush();
    }

    Config cfg_;
    Prop prop_;
    std::string tier_, verif_, workdir_;
    uint64_t seed_ = 1;
    bool no_shrink_ = false, guided_ = false;
    std::string tag_;
};

}  // namespace pbt

// Called from every block of the code under test in the "cov" variant, from nowhere in the others.
extern "C" inline __attribute__((used)) void __sanitizer_cov_trace_pc() {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    pc = (pc ^ pc >> 16) * 0x9e3779b1u >> 4;
    uint8_t& h = pbt::Coverage::hits[(pc ^ pbt::Coverage::before) & (pbt::Coverage::kSize - 1)];
    if (h != 255) ++h;
    pbt::Coverage::before = pc >> 1;
}
