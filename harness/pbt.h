// Choice-sequence property-based testing engine (generation, shrinking, replay, crash isolation).
//
// A property is `void prop(pbt::Src& s, pbt::Case& c)`. Every random decision is drawn through `s`, so a case is
// fully described by its list of choices; shrinking edits that list and replay re-reads it.  Cases run in forked
// workers: an abort, sanitizer report, uncaught exception, exit() or hang of the code under test is a failure of that case.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
    return h;
}

struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

// ---------------------------------------------------------------------------------------------------------------
// Source of choices
// ---------------------------------------------------------------------------------------------------------------
class Src {
public:
    std::vector<uint64_t> rec;
    size_t pos = 0;
    bool replay = false;
    uint64_t state = 0;
    int size = 100; // 0..100: growing size hint

    uint64_t* mirror = nullptr;
    size_t mirror_cap = 0;

    uint64_t raw() { return splitmix(state); }
    void record(uint64_t v) {
        rec.push_back(v);
        if (mirror && mirror[0] < mirror_cap - 1) {
            mirror[mirror[0] + 1] = v;
            mirror[0]++;
        }
    }

    // uniform in [0, n)
    uint64_t below(uint64_t n) {
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay) {
            v = pos < rec.size() ? rec[pos] : 0;
            if (v >= n) v = n - 1;
            ++pos;
            return v;
        }
        v = raw() % n;
        record(v);
        ++pos;
        return v;
    }
    // record a value computed by a custom distribution (f is only called in generation mode)
    template<class F>
    uint64_t custom(uint64_t n, F f) {
        uint64_t v;
        if (replay) {
            v = pos < rec.size() ? rec[pos] : 0;
        } else {
            v = f();
        }
        if (n && v >= n) v = n - 1;
        if (!replay) record(v);
        ++pos;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { // 0 choice -> lo
        if (hi <= lo) {
            return lo;
        }
        return (int64_t) ((uint64_t) lo + below((uint64_t) hi - (uint64_t) lo + 1));
    }
    // integer in [-m, m], simplest is 0
    int64_t sym(int64_t m) {
        uint64_t v = below(2 * (uint64_t) m + 1);
        return (v & 1) ? -(int64_t) ((v + 1) / 2) : (int64_t) (v / 2);
    }
    bool flip() { return below(2) == 1; }
    bool chance(int percent) { // true with percent probability; false is simplest
        return custom(2, [&] { return (uint64_t) ((raw() % 100) < (uint64_t) percent); }) == 1;
    }
    // list continuation: geometric with mean `avg`, at most max elements
    bool more(size_t have, size_t max, double avg) {
        if (have >= max) return false;
        return custom(2, [&] {
                   double p = avg / (avg + 1.0);
                   return (uint64_t) ((raw() >> 11) * (1.0 / 9007199254740992.0) < p);
               }) == 1;
    }
    // size with a bias to small values but reaching max
    size_t len(size_t max) {
        return custom(max + 1, [&]() -> uint64_t {
            switch (raw() % 5) {
                case 0: return raw() % (std::min<size_t>(max, 3) + 1);
                case 1: return raw() % (std::min<size_t>(max, 8) + 1);
                case 2: return raw() % (std::min<size_t>(max, 40) + 1);
                default: return raw() % (max + 1);
            }
        });
    }
    template<class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template<class T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + below(v.size()));
    }
    // index by weights; 0 is simplest
    size_t weighted(std::initializer_list<int> w) {
        uint64_t n = w.size();
        size_t k = custom(n, [&]() -> uint64_t {
            int tot = 0;
            for (int x : w) tot += x;
            int r = raw() % tot, i = 0;
            for (int x : w) {
                if (r < x) return i;
                r -= x;
                ++i;
            }
            return 0;
        });
        // a replayed choice may name an alternative that is not available here
        if (w.begin()[k] == 0)
            for (k = 0; k + 1 < n && w.begin()[k] == 0;) ++k;
        return k;
    }
    // any 64-bit pattern with an interesting-value bias
    uint64_t u64() {
        return custom(0, [&]() -> uint64_t {
            uint64_t r = raw();
            switch (r % 6) {
                case 0: return raw() % 16;
                case 1: return 1ULL << (raw() % 64);
                case 2: return (1ULL << (raw() % 64)) - 1;
                case 3: return raw() >> (raw() % 64);
                case 4: return ~(raw() % 16);
                default: return raw();
            }
        });
    }
    std::string bytes(size_t n) {
        std::string s;
        for (size_t i = 0; i < n; ++i) s.push_back((char) below(256));
        return s;
    }
    std::string text(size_t maxlen, const std::string& alphabet) {
        std::string s;
        size_t n = len(maxlen);
        for (size_t i = 0; i < n; ++i) s.push_back(alphabet[below(alphabet.size())]);
        return s;
    }
};

// ---------------------------------------------------------------------------------------------------------------
// Per-case context
// ---------------------------------------------------------------------------------------------------------------
class Case {
public:
    bool verbose = false;
    bool nontriv = false;
    std::string key;
    std::ostringstream trace; // human-readable description of the case
    std::vector<std::string> labels;
    std::string scratch; // per-worker scratch directory
    int trace_fd = -1;   // when set, the trace is also written here as it grows (survives a crash)

    void nontrivial(const std::string& k) {
        nontriv = true;
        key = k;
    }
    void label(const std::string& l) { labels.push_back(l); }
    template<class T>
    Case& operator<<(const T& t) {
        trace << t;
        if (trace_fd >= 0) {
            std::ostringstream o;
            o << t;
            std::string x = o.str();
            if (write(trace_fd, x.data(), x.size())) {
            }
        }
        return *this;
    }
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    void check(bool ok, const std::string& m) {
        if (!ok) throw Failure(m);
    }
    [[noreturn]] void discard() { throw Discard{}; }
};

using Prop = std::function<void(Src&, Case&)>;

struct Options {
    std::string id;
    std::string rule;
    uint64_t quick = 2000;
    uint64_t thorough = 40000;
    int case_timeout_s = 60;
    uint64_t rss_mb = 2500; // a process that holds more than this is ended and its case counts as failed
    int max_workers = 8;
    std::function<void()> worker_init;
    std::vector<std::string> assumptions;
    size_t mem_mb = 0;
    // The code under test may order things by address: a failure counts when it shows in 2 of 12 isolated runs.
    bool address_dependent = false;
    // A case without an answer is skipped (and counted) unless there are many: some analyses are exponential.
    bool slow_is_inconclusive = false;
};

namespace detail {
struct Slot {
    std::atomic<uint64_t> cur;
    std::atomic<uint64_t> started_ms;
    std::atomic<int> running;
    std::atomic<uint64_t> done;
};
struct Shared {
    std::atomic<uint64_t> min_fail;
    Slot slots[64];
    std::atomic<uint64_t> evals;
    std::atomic<uint64_t> discards;
    std::atomic<uint64_t> timeouts;
};
inline uint64_t rss_mb(pid_t pid) {
    FILE* f = fopen(("/proc/" + std::to_string(pid) + "/statm").c_str(), "r");
    if (!f) return 0;
    unsigned long long a = 0, b = 0;
    if (fscanf(f, "%llu %llu", &a, &b) != 2) b = 0;
    fclose(f);
    return b * 4096 >> 20;
}
inline uint64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}
inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch == '\n') {
            o += "\\n";
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o + "\"";
}
inline void rm_rf(const std::string& dir) {
    // only ever called on directories created by this process under the scratch base
    if (dir.find("/pbt-") == std::string::npos) return;
    std::string cmd = "rm -rf -- '" + dir + "'";
    if (system(cmd.c_str())) {
    }
}
} // namespace detail

class Runner {
    Options opt;
    Prop prop;
    std::string scratch_base;
    std::string errfile;

    // returns "" on pass, message on failure. Runs in the current process.
    std::string exec(Src& s, Case& c) {
        try {
            prop(s, c);
        } catch (const Failure& f) {
            return std::string("property violated: ") + f.what();
        } catch (const Discard&) {
            c.nontriv = false;
            c.label("discarded");
            return "";
        } catch (const std::exception& e) {
            return std::string("unexpected exception: ") + e.what();
        }
        return "";
    }

    void quiet() {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        close(fd);
        int ef = open(errfile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (ef >= 0) {
            dup2(ef, 2);
            close(ef);
        }
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
    }

    struct Res {
        bool failed = false;
        std::string msg, trace;
        std::vector<uint64_t> used;
    };
    // cases executed before the isolated one in the same process (for failures that need carried-over state)
    std::vector<uint64_t> prelude;
    uint64_t prelude_seed = 0;
    // run one choice list in a forked child
    Res run_isolated(const std::vector<uint64_t>& choices, int size) {
        Res r;
        int p[2];
        if (pipe(p)) abort();
        std::string ef = errfile + ".iso";
        unlink(ef.c_str());
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            setpgid(0, 0);
            std::string save = errfile;
            errfile = ef;
            quiet();
            if (opt.worker_init) opt.worker_init();
            for (uint64_t i : prelude) {
                Src s0;
                s0.state = case_state(prelude_seed, i);
                s0.size = case_size(i);
                Case c0;
                c0.scratch = scratch_base + "/iso";
                mkdir(c0.scratch.c_str(), 0700);
                exec(s0, c0);
            }
            Src s;
            s.replay = true;
            s.rec = choices;
            s.size = size;
            Case c;
            c.scratch = scratch_base + "/iso";
            c.trace_fd = open((ef + ".trace").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            mkdir(c.scratch.c_str(), 0700);
            // stage 1: announce trace even when the code under test dies: written by atexit-free means below
            std::string m = exec(s, c);
            std::string out = (m.empty() ? "P" : "F") + std::to_string(s.pos) + "\n" + m + "\x01" + c.trace.str();
            size_t off = 0;
            while (off < out.size()) {
                ssize_t n = write(p[1], out.data() + off, out.size() - off);
                if (n <= 0) break;
                off += n;
            }
            _exit(0);
        }
        close(p[1]);
        std::string buf;
        char tmp[4096];
        uint64_t t0 = detail::now_ms();
        bool timed_out = false, out_of_memory = false;
        unsigned polls = 0;
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        int st = 0;
        while (true) {
            ssize_t n = read(p[0], tmp, sizeof tmp);
            if (n > 0) {
                buf.append(tmp, n);
                continue;
            }
            if (n == 0) {
                break;
            }
            if (detail::now_ms() - t0 > (uint64_t) (opt.case_timeout_s + (prelude.empty() ? 0 : 100)) * 1000) {
                timed_out = true;
                break;
            }
            if (++polls % 40 == 0 && detail::rss_mb(pid) > opt.rss_mb) {
                out_of_memory = true;
                break;
            }
            usleep(500);
        }
        kill(-pid, SIGKILL);
        if (timed_out || out_of_memory) kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        close(p[0]);
        detail::rm_rf(scratch_base + "/iso");
        if (out_of_memory) {
            r.failed = true;
            r.msg = "needs more than " + std::to_string(opt.rss_mb) + " MB of memory";
            return r;
        }
        if (timed_out) {
            r.failed = true;
            r.msg = "no answer within " + std::to_string(opt.case_timeout_s) + " s";
            return r;
        }
        if (buf.empty()) {
            r.failed = true;
            std::ifstream f(ef);
            std::string line, head;
            int k = 0;
            while (std::getline(f, line)) {
                if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
                    line.find("Assertion") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
                    line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos) {
                    head += line + "; ";
                    if (++k > 4) break;
                }
            }
            r.msg = "process died (status " + std::to_string(st) + "): " + head;
            std::ifstream tf(ef + ".trace");
            std::stringstream tss;
            tss << tf.rdbuf();
            r.trace = tss.str();
            return r;
        }
        r.failed = buf[0] == 'F';
        size_t nl = buf.find('\n');
        size_t used = strtoull(buf.c_str() + 1, nullptr, 10);
        size_t sep = buf.find('\x01', nl);
        r.msg = buf.substr(nl + 1, sep - nl - 1);
        r.trace = buf.substr(sep + 1);
        r.used = choices;
        if (r.used.size() > used) r.used.resize(used);
        return r;
    }

    std::vector<uint64_t> shrink(std::vector<uint64_t> best, int size, int budget_s, size_t& tries) {
        uint64_t t0 = detail::now_ms();
        auto expired = [&] { return detail::now_ms() - t0 > (uint64_t) budget_s * 1000 || tries > 6000; };
        auto attempt = [&](const std::vector<uint64_t>& cand) {
            ++tries;
            Res r = run_isolated(cand, size);
            if (r.failed) {
                best = r.used.empty() ? cand : r.used;
                return true;
            }
            return false;
        };
        attempt(std::vector<uint64_t>(best));
        bool improved = true;
        while (improved && !expired()) {
            improved = false;
            // delete spans
            for (size_t w : {64, 32, 16, 8, 4, 3, 2, 1}) {
                if (w > best.size()) continue;
                for (size_t i = best.size() - w + 1; i-- > 0 && !expired();) {
                    if (i + w > best.size()) continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + w);
                    if (attempt(c)) improved = true;
                }
            }
            // zero spans
            for (size_t w : {8, 4, 2, 1}) {
                for (size_t i = 0; i + w <= best.size() && !expired(); ++i) {
                    bool any = false;
                    for (size_t k = 0; k < w; ++k) any |= best[i + k] != 0;
                    if (!any) continue;
                    auto c = best;
                    for (size_t k = 0; k < w; ++k) c[i + k] = 0;
                    if (attempt(c)) improved = true;
                }
            }
            // delete one, decrement an earlier length-like choice
            for (size_t i = 0; i < best.size() && !expired(); ++i) {
                if (best[i] == 0 || best[i] > 64) continue;
                for (size_t j = i + 1; j < best.size() && j < i + 12 && !expired(); ++j) {
                    auto c = best;
                    c[i] -= 1;
                    c.erase(c.begin() + j);
                    if (attempt(c)) {
                        improved = true;
                        break;
                    }
                }
            }
            // minimise values
            for (size_t i = 0; i < best.size() && !expired(); ++i) {
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo && !expired()) {
                    uint64_t mid = lo + (best[i] - lo) / 2;
                    auto c = best;
                    c[i] = mid;
                    if (attempt(c)) {
                        improved = true;
                    } else {
                        if (mid == lo && best[i] - lo <= 1) break;
                        lo = mid + 1;
                    }
                }
            }
        }
        return best;
    }

public:
    Runner(Options o, Prop p) : opt(std::move(o)), prop(std::move(p)) {}

    int main(int argc, char** argv) {
        const char* seed_s = getenv("VERIF_SEED");
        const char* tier_s = getenv("VERIF_TIER");
        uint64_t seed = seed_s ? strtoull(seed_s, nullptr, 10) : 1;
        bool thorough = tier_s && std::string(tier_s) == "thorough";
        std::string out = "result.json", replay_dir = ".", replay_file;
        uint64_t ncases = thorough ? opt.thorough : opt.quick;
        int budget_s = thorough ? 780 : 300;
        int workers = opt.max_workers;
        bool verbose = false;
        int64_t only = -1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--out") out = argv[++i];
            else if (a == "--replay-dir") replay_dir = argv[++i];
            else if (a == "--replay") replay_file = argv[++i];
            else if (a == "--cases") ncases = strtoull(argv[++i], nullptr, 10);
            else if (a == "--workers") workers = atoi(argv[++i]);
            else if (a == "--budget") budget_s = atoi(argv[++i]);
            else if (a == "--case") only = atoll(argv[++i]);
            else if (a == "--verbose") verbose = true;
        }
        char tmpl[] = "/tmp/pbt-XXXXXX";
        scratch_base = mkdtemp(tmpl);
        errfile = scratch_base + "/stderr";
        uint64_t t0 = detail::now_ms();
        int rc = 2;
        if (!replay_file.empty()) {
            rc = do_replay(replay_file);
        } else if (only >= 0) {
            Src s;
            s.state = case_state(seed, only);
            s.size = case_size(only);
            Case c;
            c.scratch = scratch_base + "/one";
            mkdir(c.scratch.c_str(), 0700);
            if (opt.worker_init) opt.worker_init();
            std::string m = exec(s, c);
            std::cout << c.trace.str() << "\n" << (m.empty() ? "PASS" : "FAIL: " + m) << "\n";
            rc = m.empty() ? 0 : 1;
        } else {
            rc = campaign(seed, ncases, workers, budget_s, out, replay_dir, thorough, t0);
        }
        detail::rm_rf(scratch_base);
        return rc;
    }

    static uint64_t case_state(uint64_t seed, uint64_t idx) {
        uint64_t x = seed * 0x9E3779B97F4A7C15ULL + idx * 0xD1B54A32D192ED03ULL + 12345;
        splitmix(x);
        return splitmix(x);
    }
    static int case_size(uint64_t idx) { return (int) std::min<uint64_t>(100, 5 + idx % 101); }

    int do_replay(const std::string& file) {
        std::ifstream f(file);
        if (!f) {
            std::cerr << "cannot read replay file\n";
            return 2;
        }
        std::string tok;
        std::vector<uint64_t> ch;
        int size = 100;
        while (f >> tok) {
            if (tok == "size:") f >> size;
            if (tok == "prelude:") {
                size_t n;
                f >> prelude_seed >> n;
                prelude.resize(n);
                for (auto& v : prelude) f >> v;
            }
            if (tok == "choices:") {
                uint64_t v;
                while (f >> v) ch.push_back(v);
                break;
            }
        }
        int failures = 0;
        Res last;
        int runs = 3;
        for (int k = 0; k < runs; ++k) {
            Res r = run_isolated(ch, size);
            if (r.failed) ++failures;
            if (r.failed || !failures) last = r;
            if (opt.address_dependent && failures < k + 1) runs = 12;
        }
        std::cout << last.trace << "\n" << last.msg << "\n" << "replay: failed " << failures << "/" << runs << "\n";
        return failures == 3 || (opt.address_dependent && failures) ? 1 : 0;
    }

    int campaign(
        uint64_t seed,
        uint64_t ncases,
        int workers,
        int budget_s,
        const std::string& out,
        const std::string& replay_dir,
        bool thorough,
        uint64_t t0
    ) {
        using namespace detail;
        auto* sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        uint64_t base = 0;
        int unreproduced = 0;
        std::string last_unreproduced;
        uint64_t deadline = now_ms() + (uint64_t) budget_s * 1000;
        std::vector<pid_t> pids(workers);
        auto spawn = [&](int w, uint64_t from) {
            pid_t pid = fork();
            if (pid) {
                pids[w] = pid;
                return;
            }
            setpgid(0, 0);
            quiet();
            if (opt.mem_mb) {
                struct rlimit rl = {opt.mem_mb << 20, opt.mem_mb << 20};
                setrlimit(RLIMIT_AS, &rl);
            }
            if (opt.worker_init) opt.worker_init();
            std::unordered_set<uint64_t> keys;
            int samples = 0;
            std::string dir = scratch_base + "/w" + std::to_string(w);
            mkdir(dir.c_str(), 0700);
            FILE* stat = fopen((scratch_base + "/stat" + std::to_string(w)).c_str(), "a");
            for (uint64_t i = from; i < ncases; i += workers) {
                if (i > sh->min_fail.load()) break;
                if (now_ms() > deadline) break;
                Slot& sl = sh->slots[w];
                sl.cur = i;
                sl.started_ms = now_ms();
                sl.running = 1;
                Src s;
                s.state = case_state(seed, i);
                s.size = case_size(i);
                Case c;
                c.scratch = dir;
                std::string m = exec(s, c);
                sl.running = 0;
                sh->evals++;
                if (!m.empty()) {
                    uint64_t cur = sh->min_fail.load();
                    while (i < cur && !sh->min_fail.compare_exchange_weak(cur, i)) {
                    }
                    break;
                }
                for (auto& l : c.labels) fprintf(stat, "L %s\n", l.c_str());
                if (c.nontriv) {
                    bool fresh = keys.insert(fnv(c.key)).second;
                    if (fresh) fprintf(stat, "K %llu\n", (unsigned long long) fnv(c.key));
                    std::string t = c.trace.str();
                    if (fresh && samples < 2 && s.size > 30 && t.size() < 3000) {
                        ++samples;
                        fprintf(stat, "S %zu\n", t.size());
                        fwrite(t.data(), 1, t.size(), stat);
                        fputc('\n', stat);
                    }
                } else {
                    fprintf(stat, "L trivial\n");
                }
                fflush(stat);
                sl.done = i + 1;
            }
            fclose(stat);
            _exit(0);
        };
        std::unordered_set<uint64_t> keys;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::string verdict = "pass", msg, replay, trace;
        size_t tries = 0;
        while (true) {
        sh->min_fail = UINT64_MAX;
        for (int w = 0; w < workers; ++w) sh->slots[w].running = 0;
        for (int w = 0; w < workers; ++w) spawn(w, base + w);
        std::set<int> alive;
        unsigned polls = 0;
        for (int w = 0; w < workers; ++w) alive.insert(w);
        auto mark_fail = [&](uint64_t i) {
            uint64_t cur = sh->min_fail.load();
            while (i < cur && !sh->min_fail.compare_exchange_weak(cur, i)) {
            }
        };
        while (!alive.empty()) {
            for (auto it = alive.begin(); it != alive.end();) {
                int w = *it, st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    kill(-pids[w], SIGKILL);
                    // still marked running: the case itself ended the process
                    if (sh->slots[w].running.load()) mark_fail(sh->slots[w].cur.load());
                    it = alive.erase(it);
                    continue;
                }
                Slot& sl = sh->slots[w];
                if (sl.running.load() && now_ms() - sl.started_ms.load() > (uint64_t) opt.case_timeout_s * 1000) {
                    kill(-pids[w], SIGKILL);
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    uint64_t t = ++sh->timeouts;
                    if (opt.slow_is_inconclusive && (t <= 20 || t * 20 <= sh->evals.load())) {
                        uint64_t next = sl.cur.load() + workers;
                        sl.running = 0;
                        spawn(w, next);
                        ++it;
                        continue;
                    }
                    mark_fail(sl.cur.load());
                    it = alive.erase(it);
                    continue;
                }
                if (polls % 25 == 0 && sl.running.load() && rss_mb(pids[w]) > opt.rss_mb) {
                    kill(-pids[w], SIGKILL);
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    mark_fail(sl.cur.load());
                    it = alive.erase(it);
                    continue;
                }
                ++it;
            }
            ++polls;
            usleep(2000);
        }
        uint64_t failing = sh->min_fail.load();
        if (failing == UINT64_MAX) break;
        {
            // regenerate the choices of the failing case, without executing: run in a child that dumps as it draws
            std::vector<uint64_t> ch = regenerate(seed, failing);
            int size = case_size(failing);
            Res r = run_isolated(ch, size);
            int again = 0;
            for (int k = 0; k < 3; ++k) again += run_isolated(ch, size).failed;
            if (opt.address_dependent && again < 3) {
                again += r.failed;
                for (int k = 0; k < 8 && again < 2; ++k) again += run_isolated(ch, size).failed;
                if (again >= 2) again = 3;
            } else if (again == 0) {
                // the failure may need what earlier cases left behind in the process
                std::vector<uint64_t> before;
                for (uint64_t i = base + (failing - base) % workers; i < failing; i += workers) before.push_back(i);
                prelude_seed = seed;
                for (size_t k = 1; again == 0; k *= 8) {
                    size_t n = std::min(k, before.size());
                    prelude.assign(before.end() - n, before.end());
                    again = run_isolated(ch, size).failed;
                    if (n == before.size() || k > 100000) break;
                }
                if (again) {
                    for (int k = 0; k < 2; ++k) again += run_isolated(ch, size).failed;
                }
                if (again != 3) prelude.clear();
            }
            if (again == 3) {
                auto best = shrink(ch, size, thorough ? 240 : 60, tries);
                int ok = 0;
                for (int k = 0; k < 3; ++k) {
                    r = run_isolated(best, size);
                    ok += r.failed;
                }
                if (ok != 3) {
                    best = ch;
                    for (int k = 0; k < 20; ++k) {
                        r = run_isolated(best, size);
                        if (r.failed) break;
                    }
                }
                verdict = "fail";
                msg = r.msg;
                trace = r.trace;
                replay = replay_dir + "/" + opt.id + "-seed" + std::to_string(seed) + "-case" + std::to_string(failing) +
                         ".replay";
                std::ofstream f(replay);
                f << "property: " << opt.id << "\n";
                f << "size: " << size << "\n";
                if (!prelude.empty()) {
                    f << "prelude: " << prelude_seed << " " << prelude.size();
                    for (auto i : prelude) f << " " << i;
                    f << "\n";
                }
                std::string m1 = msg, t1 = trace;
                std::replace(m1.begin(), m1.end(), '\n', ' ');
                f << "# " << m1 << "\n";
                std::istringstream ts(t1);
                std::string line;
                while (std::getline(ts, line)) f << "# " << line << "\n";
                f << "choices:";
                for (auto v : best) f << " " << v;
                f << "\n";
                break;
            }
            ++unreproduced;
            last_unreproduced = "case " + std::to_string(failing) + " failed in the campaign but only " +
                                std::to_string(again) + "/3 on replay: " + r.msg;
            base = failing + 1;
            if (unreproduced == 8) {
                verdict = "flaky";
                msg = last_unreproduced;
                break;
            }
            if (base >= ncases) break;
        }
        }
        // merge statistics
        for (int w = 0; w < workers; ++w) {
            std::ifstream f(scratch_base + "/stat" + std::to_string(w));
            std::string line;
            while (std::getline(f, line)) {
                if (line.size() < 2) continue;
                if (line[0] == 'L') labels[line.substr(2)]++;
                if (line[0] == 'K') keys.insert(strtoull(line.c_str() + 2, nullptr, 10));
                if (line[0] == 'S') {
                    std::string t(strtoull(line.c_str() + 2, nullptr, 10), 0);
                    f.read(&t[0], t.size());
                    if (samples.size() < 4) samples.push_back(t);
                }
            }
        }
        if (sh->timeouts.load() && opt.slow_is_inconclusive) labels["no answer in time"] = sh->timeouts.load();
        std::ofstream f(out);
        f << "{\"verdict\":" << json_str(verdict) << ",\"message\":" << json_str(msg) << ",\"replay\":" << json_str(replay)
          << ",\"trace\":" << json_str(trace) << ",\"seed\":" << seed << ",\"requested\":" << ncases
          << ",\"evaluations\":" << sh->evals.load() << ",\"distinct_nontrivial\":" << keys.size()
          << ",\"shrink_attempts\":" << tries << ",\"unreproduced\":" << unreproduced
          << ",\"unreproduced_note\":" << json_str(last_unreproduced) << ",\"rule\":" << json_str(opt.rule) << ",\"labels\":{";
        bool first = true;
        for (auto& [l, n] : labels) {
            f << (first ? "" : ",") << json_str(l) << ":" << n;
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : samples) {
            f << (first ? "" : ",") << json_str(s);
            first = false;
        }
        f << "],\"wall_s\":" << (now_ms() - t0) / 1000.0 << "}\n";
        f.close();
        return verdict == "pass" ? 0 : verdict == "fail" ? 1 : 3;
    }

    // Re-run one generated case in a child that mirrors every choice into shared memory, so that the record
    // survives whatever the case does to its process.
    std::vector<uint64_t> regenerate(uint64_t seed, uint64_t idx) {
        size_t cap = 1 << 22;
        auto* mem = (uint64_t*) mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            quiet();
            if (opt.worker_init) opt.worker_init();
            Src s;
            s.state = case_state(seed, idx);
            s.size = case_size(idx);
            s.mirror = mem;
            s.mirror_cap = cap - 1;
            Case c;
            c.scratch = scratch_base + "/regen";
            mkdir(c.scratch.c_str(), 0700);
            exec(s, c);
            _exit(0);
        }
        int st;
        uint64_t t0 = detail::now_ms();
        while (waitpid(pid, &st, WNOHANG) == 0) {
            if (detail::now_ms() - t0 > (uint64_t) opt.case_timeout_s * 1000) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            usleep(1000);
        }
        kill(-pid, SIGKILL);
        std::vector<uint64_t> r(mem + 1, mem + 1 + mem[0]);
        munmap(mem, cap * 8);
        return r;
    }
};

} // namespace pbt
