// C23: regions used from several threads at the same time are recorded completely and without data races (built with TSan).
#include "../pbt.h"
#include "daisy_rtl/daisy_rtl.h"
#include "daisy_rtl/arg_capture_io.h"
#include <atomic>
#include <cmath>
#include <dlfcn.h>
#include <nlohmann/json.hpp>
#include <thread>
using namespace pbt;
using nlohmann::json;

struct Op {
    int kind; // 0 init 1 enter 2 exit 3 finalize 4 metric 5 increment 6 yield
    int r;
    long long t, c[4];
};
struct Exec {
    long long start, dur, d[4];
    int thread;
};
struct Reg {
    std::string uuid, func;
    int set, metrics = 0;
    double sum = 0;
    std::vector<Exec> ev;
    bool known = false;
};

static void prop(Src& s, Case& c) {
    static const char* fake = getenv("FAKEPAPI");
    std::string out = c.scratch + "/trace.json", rep = c.scratch + "/report", tlog = c.scratch + "/tsan";
    unlink(out.c_str());
    unlink(rep.c_str());
    bool agg = s.flip();
    size_t ncpu = s.below(3), ncuda = s.below(2), T = 2 + s.below(4);
    bool handover = s.chance(30); // regions pass from one thread to another, with the threads in turn
    std::vector<Reg> regs;
    std::vector<std::vector<Op>> prog(T);
    std::vector<std::vector<Op>> second(T);
    std::vector<long long> clk(T);
    std::vector<std::array<long long, 4>> ctr(T);
    c << (agg ? "aggregate" : "trace") << " threads " << T << " cpu " << ncpu << " cuda " << ncuda << "\n";
    auto body = [&](size_t t, std::vector<Op>& p, int r, bool init, bool fin) {
        Reg& R = regs[r];
        auto emit = [&](int k) {
            Op o{k, r, clk[t], {ctr[t][0], ctr[t][1], ctr[t][2], ctr[t][3]}};
            p.push_back(o);
        };
        auto step = [&] {
            clk[t] += 1 + s.below(4000);
            for (auto& v : ctr[t]) v += s.below(1000);
        };
        R.known = true;
        if (init) emit(0);
        size_t n = s.below(6);
        c << " t" << t << ":r" << r << "x" << n;
        for (size_t i = 0; i < n; ++i) {
            step();
            auto before = ctr[t];
            long long t0 = clk[t];
            emit(1);
            step();
            if (s.chance(20)) emit(6);
            emit(2);
            Exec e{t0, clk[t] - t0, {}, (int) t};
            for (int q = 0; q < 4; ++q) e.d[q] = ctr[t][q] - before[q];
            R.ev.push_back(e);
        }
        while (s.chance(25)) {
            emit(s.flip() ? 4 : 5);
            R.metrics++;
            R.sum += 3;
        }
        step();
        if (fin) emit(3);
    };
    for (size_t t = 0; t < T; ++t) {
        clk[t] = 1000 + 1000000LL * (long long) t;
        ctr[t] = {};
        size_t own = 1 + s.below(4), rounds = 1 + s.below(8);
        size_t first = regs.size();
        for (size_t i = 0; i < own; ++i) {
            Reg R;
            R.uuid = "region_" + std::to_string(regs.size());
            R.func = "f" + std::to_string(regs.size());
            R.set = s.pick({0, 2, 1});
            regs.push_back(R);
        }
        for (size_t k = 0; k < rounds; ++k) body(t, prog[t], first + s.below(own), true, true);
    }
    if (handover) {
        size_t n = regs.size();
        c << " | second phase";
        std::vector<bool> taken(n, false);
        for (size_t t = 0; t < T; ++t)
            for (size_t k = s.below(3); k > 0; --k) {
                size_t r = s.below(n);
                if (taken[r]) continue;
                taken[r] = true;
                body(t, second[t], r, true, true);
            }
    }
    // argument captures: every thread has a context of its own, all write to the same directory
    struct Cap {
        size_t element, size;
        int arg, kind;
        bool after;
        uint64_t fill;
    };
    bool caps = s.chance(40);
    std::filesystem::path cdir = std::filesystem::path(c.scratch) / "caps";
    std::filesystem::remove_all(cdir);
    std::vector<std::vector<std::vector<Cap>>> cp(T);
    auto content = [](const Cap& k) {
        std::string d(k.size, 0);
        uint64_t st = k.fill;
        for (auto& ch : d) ch = (char) splitmix(st);
        return d;
    };
    if (caps) {
        c << " | captures";
        for (size_t t = 0; t < T; ++t)
            for (size_t n = 1 + s.below(3); n > 0; --n) {
                std::vector<Cap> v;
                size_t el = s.below(3);
                for (size_t k = 1 + s.below(3); k > 0; --k)
                    v.push_back({el, s.pick<size_t>({8, 4, 32, 33, 200}), (int) v.size(), (int) s.below(2), s.flip(), s.below(1 << 16)});
                cp[t].push_back(v);
                c << " t" << t << ":" << el << "x" << v.size();
            }
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setenv("DAISY_PAPI_PATH", fake, 1);
        setenv("__DAISY_PAPI_VERSION", "0x07020000", 1);
        setenv("__DAISY_INSTRUMENTATION_FILE", out.c_str(), 1);
        if (agg) setenv("__DAISY_INSTRUMENTATION_MODE", "aggregate", 1);
        else unsetenv("__DAISY_INSTRUMENTATION_MODE");
        setenv("__DAISY_INSTRUMENTATION_EVENTS", ncpu == 0 ? "" : ncpu == 1 ? "C0" : "C0,C1", 1);
        setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", ncuda ? "G2" : "", 1);
        if (!ncpu) unsetenv("__DAISY_INSTRUMENTATION_EVENTS");
        setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
        setenv("__DAISY_CAPTURE_BASE_DIR", cdir.c_str(), 1);
        void* h = dlopen(fake, RTLD_NOW | RTLD_GLOBAL);
        auto set = (void (*)(long long, const long long*)) dlsym(h, "fake_set");
        auto errs = (int (*)()) dlsym(h, "fake_errors");
        auto err1 = (const char* (*) ()) dlsym(h, "fake_first_error");
        std::vector<size_t> ids(regs.size(), 0);
        std::vector<__daisy_metadata_t> md(regs.size());
        for (size_t r = 0; r < regs.size(); ++r) {
            memset(&md[r], 0, sizeof md[r]);
            md[r].file_name = "/src/k.c";
            md[r].function_name = regs[r].func.c_str();
            md[r].line_begin = r;
            md[r].line_end = r + 1;
            md[r].region_uuid = regs[r].uuid.c_str();
            md[r].element_type = "for";
        }
        auto run = [&](std::vector<std::vector<Op>>& progs) {
            std::atomic<size_t> ready{0};
            std::vector<std::thread> th;
            for (size_t t = 0; t < T; ++t)
                th.emplace_back([&, t] {
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
                    if (&progs == &prog && !cp[t].empty()) {
                        std::string name = "k" + std::to_string(t);
                        auto* cx = __daisy_capture_init(name.c_str(), nullptr);
                        for (auto& v : cp[t]) {
                            __daisy_capture_enter(cx, v[0].element);
                            for (auto& k : v) {
                                std::string d = content(k);
                                if (k.kind == 0) __daisy_capture_raw(cx, k.arg, d.data(), d.size(), 5, k.after, k.element);
                                else __daisy_capture_1d(cx, k.arg, d.data(), 1, 5, d.size(), k.after, k.element);
                            }
                            __daisy_capture_end(cx);
                        }
                    }
                    for (auto& o : progs[t]) {
                        set(o.t, o.c);
                        switch (o.kind) {
                            case 0: ids[o.r] = __daisy_instrumentation_init(&md[o.r], (enum __daisy_event_set) regs[o.r].set); break;
                            case 1: __daisy_instrumentation_enter(ids[o.r]); break;
                            case 2: __daisy_instrumentation_exit(ids[o.r]); break;
                            case 3: __daisy_instrumentation_finalize(ids[o.r]); break;
                            case 4: __daisy_instrumentation_metric(ids[o.r], "m", 3.0); break;
                            case 5: __daisy_instrumentation_increment(ids[o.r], "m", 3); break;
                            default: std::this_thread::yield();
                        }
                    }
                });
            for (auto& x : th) x.join();
        };
        run(prog);
        run(second);
        std::ofstream r(rep);
        r << "done\n";
        if (errs()) r << "PAPI protocol: " << err1() << "\n";
        r.close();
        exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "data race between threads that use different regions");
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "instrumented program ended with status " + std::to_string(st));
    std::ifstream rp(rep);
    std::string l;
    std::getline(rp, l);
    c.check(l == "done", "instrumented program stopped early");
    l.clear();
    std::getline(rp, l);
    c.check(l.empty(), l);
    for (size_t t = 0; t < T; ++t) {
        std::map<size_t, size_t> inv;
        for (auto& v : cp[t]) {
            size_t el = v[0].element;
            std::string f = "k" + std::to_string(t) + "_inv" + std::to_string(inv[el]++) + "_" + std::to_string(el) + ".index.json";
            c.check(std::filesystem::exists(cdir / f), f + " is missing");
            auto io = arg_capture::ArgCaptureIO::from_index(cdir / f);
            auto& m = io->get_captures().at(std::to_string(el));
            c.check(m.size() == v.size(), f + " has " + std::to_string(m.size()) + " captures, expected " + std::to_string(v.size()));
            for (auto& k : v) {
                auto it = m.find({k.arg, k.after});
                c.check(it != m.end(), f + ": argument missing");
                std::string got;
                if (it->second.data) got.assign(it->second.data->begin(), it->second.data->end());
                else {
                    std::ifstream di(*it->second.ext_file, std::ios::binary);
                    std::stringstream ds;
                    ds << di.rdbuf();
                    got = ds.str();
                }
                c.check(got == content(k), f + ": captured bytes differ");
            }
        }
    }
    std::ifstream in(out);
    std::stringstream ss;
    ss << in.rdbuf();
    json j = json::parse(ss.str(), nullptr, false);
    c.check(!j.is_discarded(), "the trace is not valid JSON");
    auto& te = j.at("traceEvents");
    std::map<std::string, std::vector<json>> by;
    for (auto& e : te) by[e.at("args").at("function").get<std::string>()].push_back(e);
    size_t execs = 0, threads_used = 0;
    for (size_t t = 0; t < T; ++t) threads_used += !prog[t].empty();
    for (auto& R : regs) {
        execs += R.ev.size();
        auto& got = by[R.func];
        auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-9; };
        if (!agg) {
            c.check(got.size() == R.ev.size(), R.uuid + " has " + std::to_string(got.size()) + " events, was executed " + std::to_string(R.ev.size()) + " times");
            for (size_t i = 0; i < got.size(); ++i) {
                auto& g = got[i];
                auto& e = R.ev[i];
                c.check(g.at("ts") == e.start / 1000 && near(g.at("dur").get<double>(), e.dur / 1000.0),
                        R.uuid + ": execution " + std::to_string(i) + " is recorded as " + g.at("ts").dump() + " + " + g.at("dur").dump());
                json met = json::object();
                if (R.set == 0)
                    for (size_t q = 0; q < ncpu; ++q) met["C" + std::to_string(q)] = e.d[q];
                if (R.set == 1 && ncuda) met["G2"] = e.d[2];
                c.check(g.at("args").at("metrics") == met, R.uuid + ": counters of execution " + std::to_string(i) + " are " + g["args"]["metrics"].dump() + ", expected " + met.dump());
            }
        } else {
            c.check(got.size() == (R.known ? 1u : 0u), R.uuid + " is reported " + std::to_string(got.size()) + " times");
            if (!R.known) continue;
            auto& m = got[0].at("args").at("metrics");
            double total = 0;
            for (auto& e : R.ev) total += e.dur;
            c.check(m.at("runtime").at("count") == R.ev.size(), R.uuid + ": " + m["runtime"]["count"].dump() + " runtimes, was executed " + std::to_string(R.ev.size()) + " times");
            c.check(near(got[0].at("dur").get<double>(), total / 1000), R.uuid + ": total duration " + got[0]["dur"].dump());
            c.check(m.contains("static:::m") == (R.metrics > 0), R.uuid + ": metric presence");
            if (R.metrics) c.check(m.at("static:::m").at("count") == R.metrics && near(m["static:::m"]["mean"].get<double>(), 3), R.uuid + ": metric " + m["static:::m"].dump());
            auto stat = [&](const std::string& n, int q) {
                double sum = 0;
                for (auto& e : R.ev) sum += e.d[q];
                c.check(m.at(n).at("count") == R.ev.size(), R.uuid + ": samples of " + n);
                if (!R.ev.empty()) c.check(near(m.at(n).at("mean").get<double>(), sum / R.ev.size()), R.uuid + ": mean of " + n);
            };
            if (R.set == 0)
                for (size_t q = 0; q < ncpu; ++q) stat("C" + std::to_string(q), q);
            if (R.set == 1 && ncuda) stat("G2", 2);
        }
    }
    size_t known = 0;
    for (auto& R : regs) known += R.known;
    if (!agg) c.check(te.size() == execs, "events that belong to no region");
    c.label(agg ? "aggregate" : "trace");
    if (caps) c.label("captures");
    if (handover) c.label("regions handed over");
    if (known > 10) c.label("more regions than the runtime keeps ready");
    if (execs > 1) c.nontrivial(c.trace.str());
}

int main(int argc, char** argv) {
    Options o;
    o.id = "C23";
    o.rule = "2-5 threads, each with 1-4 regions and up to 8 register/execute/finalise rounds, running at once under ThreadSanitizer; some "
             "regions handed over to another thread afterwards, some with argument captures in a context of their own; non-trivial = at least two executions, distinct by program";
    o.quick = 3000;
    o.thorough = 40000;
    return Runner(o, prop).main(argc, argv);
}
