// C05 (trace mode) / C06 (aggregate mode): the instrumentation runtime against a reference model with a scripted PAPI.
#include "../pbt.h"
#include "daisy_rtl/daisy_rtl.h"
#include <cmath>
#include <dlfcn.h>
#include <nlohmann/json.hpp>
using namespace pbt;
using nlohmann::json;
#ifndef MODE_AGG
#define MODE_AGG 0
#endif

struct Meta {
    std::string file, func, sdfg, sdfg_file, cap, feat, opt, etype, target, uuid;
    bool has_sdfg, has_sdfg_file, has_cap, has_feat, has_opt, has_target;
    long lb, le, cb, ce;
    size_t eid, loops, maps, fors, whiles, depth;
    int nest;
    bool f1, f2, f3, f4;
    int set;
};
struct Ev {
    long long start, end;
    bool ended;
    std::vector<long long> counts;
};
struct Stat {
    std::vector<long double> v;
};
struct MReg {
    Meta m;
    bool known = false, active = false, inside = false;
    size_t id = 0;
    std::vector<Ev> evs;
    std::map<std::string, std::vector<double>> stat;
    int inits = 0;
};

static std::string gen_name(Src& s) {
    if (s.chance(3)) {
        // long text, with something to escape near the end
        std::string x(s.pick<size_t>({60, 255, 256, 1000, 1024, 4096, 9000}), 'n');
        return x + s.text(4, "ab\"\\/\n");
    }
    if (s.chance(12)) return s.text(12, "ab\"\\/:{}[],'%\t\n\x01<>x ");
    return s.text(14, "abcXYZ_019./- ");
}
static bool close_to(double a, long double b) {
    if (std::isnan(a)) return false;
    long double tol = 1e-5L * std::max(fabsl(b), (long double) std::fabs(a)) + 1e-9L;
    return fabsl((long double) a - b) <= tol;
}
static std::string num(long double x) {
    std::ostringstream o;
    o.precision(12);
    o << (double) x;
    return o.str();
}

static void check_meta(Case& c, const json& e, const Meta& m, const std::string& who) {
    auto eq = [&](const json& got, const json& want, const char* what) {
        c.check(got == want, who + ": " + what + " is " + got.dump() + ", expected " + want.dump());
    };
    eq(e.at("ph"), "X", "ph");
    eq(e.at("cat"), MODE_AGG ? "aggregated_region,daisy" : "region,daisy", "cat");
    eq(e.at("name"), m.func + " [L" + std::to_string(m.lb) + "-" + std::to_string(m.le) + "]", "name");
    auto& a = e.at("args");
    eq(a.at("function"), m.func, "function");
    std::string mod = m.file.find('/') == std::string::npos ? m.file : m.file.substr(m.file.rfind('/') + 1);
    eq(a.at("module"), mod, "module");
    auto& sr = a.at("source_ranges");
    c.check(sr.size() == 1, who + ": source ranges");
    eq(sr[0].at("file"), m.file, "file");
    eq(sr[0].at("from"), json({{"line", m.lb}, {"col", m.cb}}), "from");
    eq(sr[0].at("to"), json({{"line", m.le}, {"col", m.ce}}), "to");
    auto& d = a.at("docc");
    eq(d.at("sdfg_name"), m.has_sdfg ? m.sdfg : "", "sdfg_name");
    eq(d.at("sdfg_file"), m.has_sdfg_file ? m.sdfg_file : "", "sdfg_file");
    eq(d.at("arg_capture_path"), m.has_cap ? m.cap : "", "arg_capture_path");
    eq(d.at("features_file"), m.has_feat ? m.feat : "", "features_file");
    eq(d.at("opt_report_file"), m.has_opt ? m.opt : "", "opt_report_file");
    eq(a.at("target_type"), m.has_target ? m.target : "", "target_type");
    if (m.has_sdfg && m.has_sdfg_file) {
        eq(d.at("element_id"), m.eid, "element_id");
        eq(d.at("element_type"), m.etype, "element_type");
        auto& l = d.at("loop_info");
        eq(l, json({{"loopnest_index", m.nest}, {"num_loops", m.loops}, {"num_maps", m.maps}, {"num_fors", m.fors}, {"num_whiles", m.whiles},
                    {"max_depth", m.depth}, {"is_perfectly_nested", m.f1}, {"is_perfectly_parallel", m.f2}, {"is_elementwise", m.f3},
                    {"has_side_effects", m.f4}}),
           "loop_info");
    } else {
        c.check(!d.contains("element_id"), who + ": element metadata without an SDFG");
    }
}

static void prop(Src& s, Case& c) {
    static const char* fake = getenv("FAKEPAPI");
    std::string out = c.scratch + "/trace.json", rep = c.scratch + "/report";
    unlink(out.c_str());
    unlink(rep.c_str());
    size_t ncpu = s.below(4), ncuda = s.below(3);
    std::vector<std::string> ev[3];
    if (s.chance(6)) ncpu = 4 + s.below(9);
    if (s.chance(4)) ncuda = 3 + s.below(8);
    for (size_t i = 0; i < ncpu; ++i) ev[0].push_back("perf::C" + std::to_string(i));
    for (size_t i = 0; i < ncuda; ++i) ev[1].push_back("cuda:::G" + std::to_string(i) + ":device=0");
    // regions
    size_t nreg = 1 + s.len(s.chance(30) ? (s.chance(10) ? 45 : 16) : 5);
    // many short-lived regions: more finalised regions than the runtime keeps ready
    bool churn = s.chance(15);
    if (churn) nreg = 11 + s.below(8);
    std::vector<MReg> regs(nreg);
    bool simple_meta = s.chance(50);
    for (size_t i = 0; i < nreg; ++i) {
        Meta& m = regs[i].m;
        m.uuid = "region_" + std::to_string(i);
        m.set = s.pick({0, 2, 1});
        if (simple_meta) {
            m.file = "/src/k.c";
            m.func = "main";
            m.has_sdfg = m.has_sdfg_file = m.has_cap = m.has_feat = m.has_opt = m.has_target = false;
            m.lb = i;
            m.le = i + 1;
            m.cb = m.ce = 0;
        } else {
            m.file = "/" + gen_name(s) + "/m" + gen_name(s) + ".c";
            m.func = gen_name(s);
            m.has_sdfg = s.flip();
            m.has_sdfg_file = s.flip();
            m.has_cap = s.flip();
            m.has_feat = s.flip();
            m.has_opt = s.flip();
            m.has_target = s.flip();
            if (m.has_sdfg) m.sdfg = gen_name(s);
            if (m.has_sdfg_file) m.sdfg_file = gen_name(s);
            if (m.has_cap) m.cap = gen_name(s);
            if (m.has_feat) m.feat = gen_name(s);
            if (m.has_opt) m.opt = gen_name(s);
            if (m.has_target) m.target = gen_name(s);
            m.etype = s.pick<std::string>({"for", "map", "while"});
            m.lb = s.range(0, 100000);
            m.le = s.range(0, 100000);
            m.cb = s.range(0, 300);
            m.ce = s.range(0, 300);
            m.eid = s.below(100000);
            m.loops = s.below(9);
            m.maps = s.below(9);
            m.fors = s.below(9);
            m.whiles = s.below(9);
            m.depth = s.below(9);
            m.nest = s.sym(3);
            m.f1 = s.flip();
            m.f2 = s.flip();
            m.f3 = s.flip();
            m.f4 = s.flip();
            if (s.chance(15)) {
                const std::vector<size_t> big{0, 255, 256, 65535, 65536, 4294967295ull, 4294967296ull, 1ull << 53, (1ull << 53) + 1, 1ull << 63, ~0ull};
                m.eid = s.pick(big);
                m.loops = s.pick(big);
                m.maps = s.pick(big);
                m.fors = s.pick(big);
                m.whiles = s.pick(big);
                m.depth = s.pick(big);
                const std::vector<long> lines{0, 2147483647L, 2147483648L, 4294967296L, 65536, 255, -1};
                m.lb = s.pick(lines);
                m.le = s.pick(lines);
                m.cb = s.pick(lines);
                m.ce = s.pick(lines);
                m.nest = s.pick<int>({2147483647, -2147483647 - 1, 65536, -1, 128});
            }
        }
    }
    // history
    struct Op {
        int kind; // 0 init 1 enter 2 exit 3 finalize 4 metric 5 increment
        size_t r;
        long long t;
        std::vector<std::pair<std::string, long long>> ctr;
        std::string name;
        double val;
        long long ival;
    };
    std::vector<Op> ops;
    long long clock = 1000 + s.below(1000000);
    if (s.chance(20)) clock += s.pick<long long>({1LL << 31, 1LL << 32, 1LL << 40, 1LL << 53, 1792000000000000000LL}); // e.g. nanoseconds since 1970
    bool loops = s.chance(4), gauge = s.chance(10); // some counters are gauges, which can fall
    size_t executions = 0;
    std::map<std::string, long long> ctr;
    for (int k = 0; k < 2; ++k)
        for (auto& e : ev[k]) ctr[e] = 0;
    std::map<size_t, std::vector<long long>> last;
    int n_re = 0, n_evict_re = 0, n_open = 0, n_noev = 0;
    auto active_n = [&] {
        int a = 0;
        for (auto& r : regs) a += r.active;
        return a;
    };
    int asleep_since = 0;
    (void) asleep_since;
    std::vector<size_t> sleeping; // model of which regions were finalised, in order
    int n_steps = 0;
    while (s.more(n_steps++, 150, nreg > 8 ? 70 : churn ? 60 : 25)) {
        size_t r = churn && s.chance(70) ? n_steps % nreg : s.below(nreg);
        MReg& R = regs[r];
        Op o{};
        o.r = r;
        clock += s.chance(30) ? s.below(5000000000LL) : s.below(3000);
        o.t = clock;
        for (auto& [n, v] : ctr) {
            v += s.chance(10) ? s.below(1LL << 40) : s.below(1000);
            if (gauge && s.chance(30)) v -= s.below(5000);
            o.ctr.push_back({n, v});
        }
        if (!R.active) {
            o.kind = 0;
            if (R.known) {
                ++n_re;
                auto it = std::find(sleeping.begin(), sleeping.end(), r);
                if (it != sleeping.end()) {
                    if (sleeping.end() - it > 10) ++n_evict_re;
                    sleeping.erase(it);
                }
            }
            R.known = R.active = true;
            R.inits++;
            c << "init " << r << "\n";
        } else if (R.inside) {
            int k = s.weighted({6, 1});
            if (k == 1 && MODE_AGG) {
                o.kind = 4;
            } else {
                o.kind = 2;
            }
        } else {
            int k = s.weighted({6, 4, MODE_AGG ? 3 : 1});
            o.kind = k == 0 ? 1 : k == 1 ? 3 : (s.flip() ? 4 : 5);
        }
        auto begin = [&](long long clock) {
            R.inside = true;
            Ev e{clock, 0, false, {}};
            if (R.m.set < 2)
                for (auto& n : ev[R.m.set]) last[r].push_back(0);
            last[r].clear();
            if (R.m.set < 2)
                for (auto& n : ev[R.m.set]) last[r].push_back(ctr[n]);
            R.evs.push_back(e);
        };
        auto leave = [&](long long clock) {
            R.inside = false;
            Ev& e = R.evs.back();
            e.end = clock;
            e.ended = true;
            if (R.m.set < 2)
                for (size_t i = 0; i < ev[R.m.set].size(); ++i) e.counts.push_back(ctr[ev[R.m.set][i]] - last[r][i]);
        };
        if (o.kind == 0 && churn && s.chance(75)) {
            // a complete visit
            ops.push_back(o);
            size_t n = s.below(3);
            for (size_t k = 0; k < n; ++k) {
                o.kind = 1;
                o.t = clock += s.below(2000);
                begin(clock);
                ops.push_back(o);
                for (auto& [name, v] : o.ctr) ctr[name] = v += s.below(1000);
                o.kind = 2;
                o.t = clock += 1 + s.below(4000);
                leave(clock);
                ops.push_back(o);
            }
            o.kind = 3;
            ops.push_back(o);
            R.active = false;
            sleeping.push_back(r);
            c << "  " << n << " executions, finalize " << r << " t=" << clock << "\n";
            continue;
        }
        if (o.kind == 1 && loops && s.chance(30)) {
            // a region inside a loop: many executions in a row
            size_t n = MODE_AGG && s.chance(3) ? 65530 + s.below(20) : 20 + s.below(500);
            if (executions > 1000) n = 3;
            executions += n;
            long long step = s.below(3000), cstep = s.below(1000);
            uint64_t st = s.below(1 << 16);
            for (size_t k = 0; k < n; ++k) {
                if (k) clock += step + splitmix(st) % 50;
                o.kind = 1;
                o.t = clock;
                begin(clock);
                ops.push_back(o);
                clock += 1 + splitmix(st) % 4000;
                for (auto& [name, v] : o.ctr) {
                    v += cstep + splitmix(st) % 100;
                    ctr[name] = v;
                }
                o.kind = 2;
                o.t = clock;
                leave(clock);
                ops.push_back(o);
            }
            c << "loop " << r << " x" << n << " t=" << clock << " " << step << " " << cstep << "\n";
            c.label(n > 60000 ? "65536 executions" : "loop");
            continue;
        }
        if (o.kind == 1) {
            begin(clock);
            c << "enter " << r << " t=" << clock << "\n";
        } else if (o.kind == 2) {
            leave(clock);
            c << "exit " << r << " t=" << clock << "\n";
        } else if (o.kind == 3) {
            R.active = false;
            sleeping.push_back(r);
            c << "finalize " << r << "\n";
        } else if (o.kind == 4 || o.kind == 5) {
            o.name = s.pick<std::string>({"flops", "bytes", "x y"});
            if (s.chance(5)) o.name = s.pick<std::string>({"", "q\"\\", std::string(300, 'm'), "m" + std::to_string(s.below(40))});
            if (o.kind == 5) {
                o.ival = s.chance(10) ? s.sym(1LL << 50) : s.sym(100000);
                o.val = (double) o.ival;
            } else {
                o.val = s.chance(8) ? (s.flip() ? INFINITY : NAN) : (double) s.sym(s.chance(10) ? 1LL << 45 : 1000000) / 64.0;
            }
            R.stat[o.name].push_back(o.val);
            c << (o.kind == 5 ? "increment " : "metric ") << r << " " << o.name << " " << o.val << "\n";
        }
        ops.push_back(o);
    }
    (void) active_n;
    // a program may end inside a region only if it never returns from it; otherwise everything is closed
    bool close_all = s.chance(70);
    if (close_all) {
        for (size_t r = 0; r < nreg; ++r) {
            if (!regs[r].active) continue;
            clock += s.below(5000);
            if (regs[r].inside) {
                Op o{};
                o.kind = 2;
                o.r = r;
                o.t = clock;
                for (auto& [n, v] : ctr) o.ctr.push_back({n, v});
                Ev& e = regs[r].evs.back();
                e.end = clock;
                e.ended = true;
                if (regs[r].m.set < 2)
                    for (size_t i = 0; i < ev[regs[r].m.set].size(); ++i) e.counts.push_back(ctr[ev[regs[r].m.set][i]] - last[r][i]);
                ops.push_back(o);
            }
            Op o{};
            o.kind = 3;
            o.r = r;
            o.t = clock;
            ops.push_back(o);
            regs[r].active = regs[r].inside = false;
        }
        c << "close all\n";
    }
    for (auto& R : regs)
        if (R.known && R.inside) ++n_open;
    size_t ended = 0;
    for (auto& R : regs) {
        if (R.known && R.evs.empty()) ++n_noev;
        for (auto& e : R.evs) ended += e.ended;
    }

    // run it in a process of its own: the trace is written when the process exits
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setenv("DAISY_PAPI_PATH", fake, 1);
        setenv("__DAISY_PAPI_VERSION", "0x07020000", 1);
        setenv("__DAISY_INSTRUMENTATION_FILE", out.c_str(), 1);
        if (MODE_AGG) setenv("__DAISY_INSTRUMENTATION_MODE", "aggregate", 1);
        else unsetenv("__DAISY_INSTRUMENTATION_MODE");
        std::string a, b;
        for (auto& e : ev[0]) a += (a.empty() ? "" : ",") + e;
        for (auto& e : ev[1]) b += (b.empty() ? "" : ",") + e;
        if (a.empty()) unsetenv("__DAISY_INSTRUMENTATION_EVENTS");
        else setenv("__DAISY_INSTRUMENTATION_EVENTS", a.c_str(), 1);
        setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", b.c_str(), 1);
        void* h = dlopen(fake, RTLD_NOW | RTLD_GLOBAL);
        auto set_time = (void (*)(long long)) dlsym(h, "fake_set_time");
        auto set_ctr = (void (*)(const char*, long long)) dlsym(h, "fake_set_counter");
        auto errs = (int (*)()) dlsym(h, "fake_errors");
        auto err1 = (const char* (*) ()) dlsym(h, "fake_first_error");
        auto max_live = (int (*)()) dlsym(h, "fake_max_live");
        std::string note;
        for (auto& o : ops) {
            set_time(o.t);
            for (auto& [n, v] : o.ctr) set_ctr(n.c_str(), v);
            MReg& R = regs[o.r];
            switch (o.kind) {
                case 0: {
                    __daisy_metadata_t md;
                    memset(&md, 0, sizeof md);
                    Meta& m = R.m;
                    md.file_name = m.file.c_str();
                    md.function_name = m.func.c_str();
                    md.line_begin = m.lb;
                    md.line_end = m.le;
                    md.column_begin = m.cb;
                    md.column_end = m.ce;
                    md.sdfg_name = m.has_sdfg ? m.sdfg.c_str() : nullptr;
                    md.sdfg_file = m.has_sdfg_file ? m.sdfg_file.c_str() : nullptr;
                    md.arg_capture_path = m.has_cap ? m.cap.c_str() : nullptr;
                    md.features_file = m.has_feat ? m.feat.c_str() : nullptr;
                    md.opt_report_file = m.has_opt ? m.opt.c_str() : nullptr;
                    md.target_type = m.has_target ? m.target.c_str() : nullptr;
                    md.element_id = m.eid;
                    md.element_type = m.etype.c_str();
                    md.loopnest_index = m.nest;
                    md.num_loops = m.loops;
                    md.num_maps = m.maps;
                    md.num_fors = m.fors;
                    md.num_whiles = m.whiles;
                    md.max_depth = m.depth;
                    md.is_perfectly_nested = m.f1;
                    md.is_perfectly_parallel = m.f2;
                    md.is_elementwise = m.f3;
                    md.has_side_effects = m.f4;
                    md.region_uuid = m.uuid.c_str();
                    size_t id = __daisy_instrumentation_init(&md, (enum __daisy_event_set) m.set);
                    if (R.id && R.id != id) note += "region registered again under another id\n";
                    for (auto& Q : regs)
                        if (&Q != &R && Q.id == id) note += "two regions share an id\n";
                    R.id = id;
                    break;
                }
                case 1: __daisy_instrumentation_enter(R.id); break;
                case 2: __daisy_instrumentation_exit(R.id); break;
                case 3: __daisy_instrumentation_finalize(R.id); break;
                case 4: __daisy_instrumentation_metric(R.id, o.name.c_str(), o.val); break;
                case 5: __daisy_instrumentation_increment(R.id, o.name.c_str(), o.ival); break;
            }
        }
        int act = 0;
        (void) act;
        if (errs()) note += std::string("PAPI protocol: ") + err1() + "\n";
        if (max_live() > (int) nreg) note += "more event sets alive than regions\n";
        std::ofstream(rep) << "done\n" << note;
        exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "instrumented program ended with status " + std::to_string(st));
    {
        std::ifstream r(rep);
        std::string l;
        std::getline(r, l);
        bool any = false;
        for (auto& o : ops) any |= true;
        c.check(l == "done", "instrumented program stopped early");
        std::getline(r, l);
        c.check(l.empty(), l);
        if (!any) return;
    }
    std::ifstream in(out, std::ios::binary);
    if (ops.empty()) return;
    c.check((bool) in, "no trace was written");
    std::stringstream ss;
    ss << in.rdbuf();
    json j;
    try {
        j = json::parse(ss.str());
    } catch (const std::exception& e) {
        c.fail(std::string("the trace is not valid JSON: ") + e.what() + "\n" + ss.str().substr(0, 1500));
    }
    auto& te = j.at("traceEvents");
    // group by region: names are not unique, so match through the metadata of the model
    if (!MODE_AGG) {
        size_t want = 0;
        for (auto& R : regs) want += R.evs.size();
        c.check(te.size() == want, "trace has " + std::to_string(te.size()) + " events, expected " + std::to_string(want));
        // each expected event must match a distinct trace event (ts, dur, metrics, metadata)
        std::vector<bool> used(te.size(), false);
        for (size_t r = 0; r < nreg; ++r) {
            auto& R = regs[r];
            for (size_t i = 0; i < R.evs.size(); ++i) {
                Ev& e = R.evs[i];
                std::string who = "event " + std::to_string(i) + " of region " + std::to_string(r);
                std::string why = who + " (start " + std::to_string(e.start / 1000) + "us) has no matching trace entry";
                bool found = false;
                for (size_t k = 0; k < te.size() && !found; ++k) {
                    if (used[k]) continue;
                    auto& t = te[k];
                    if (!t.contains("ts") || t["ts"].get<long long>() != e.start / 1000) continue;
                    try {
                        check_meta(c, t, R.m, who);
                        if (e.ended) {
                            c.check(t.contains("dur"), who + ": no duration");
                            c.check(close_to(t["dur"].get<double>(), (e.end - e.start) / 1000.0L),
                                    who + ": duration " + t["dur"].dump() + ", expected " + num((e.end - e.start) / 1000.0L));
                            json met = json::object();
                            if (R.m.set < 2)
                                for (size_t q = 0; q < ev[R.m.set].size(); ++q) met[ev[R.m.set][q]] = e.counts[q];
                            c.check(t.at("args").at("metrics") == met, who + ": metrics " + t["args"]["metrics"].dump() + ", expected " + met.dump());
                        } else {
                            c.check(!t.contains("dur"), who + ": a duration although the region was never left");
                        }
                        used[k] = found = true;
                    } catch (const Failure& f) {
                        why = f.what();
                    } catch (const json::exception& x) {
                        why = who + ": " + x.what();
                    }
                }
                c.check(found, why);
            }
        }
        if (ended >= 2) c.nontrivial(c.trace.str());
    } else {
        size_t want = 0;
        for (auto& R : regs) want += R.known;
        c.check(te.size() == want, "trace has " + std::to_string(te.size()) + " aggregated events, expected " + std::to_string(want));
        std::vector<bool> used(te.size(), false);
        for (size_t r = 0; r < nreg; ++r) {
            auto& R = regs[r];
            if (!R.known) continue;
            std::string who = "region " + std::to_string(r), why = who + " is missing from the trace";
            bool found = false;
            auto stat = [&](const json& g, std::vector<long double> v, long double scale, const std::string& what) {
                long double n = v.size(), mean = 0, var = 0, mn = 0, mx = 0;
                bool finite = true;
                for (auto x : v) finite &= (bool) std::isfinite((double) x);
                c.check(g.at("count").get<long long>() == (long long) v.size(), what + ": count " + g.at("count").dump() + ", expected " + std::to_string(v.size()));
                if (v.empty()) return;
                if (!finite) {
                    // statistics over non-finite samples only have to stay representable
                    return;
                }
                for (auto x : v) mean += x;
                mean /= n;
                for (auto x : v) var += (x - mean) * (x - mean);
                var /= n;
                mn = *std::min_element(v.begin(), v.end());
                mx = *std::max_element(v.begin(), v.end());
                c.check(close_to(g.at("mean").get<double>(), mean * scale), what + ": mean " + g.at("mean").dump() + ", expected " + num(mean * scale));
                long double magn = std::max(fabsl(mn), fabsl(mx));
                c.check(close_to(g.at("variance").get<double>(), var * scale * scale) ||
                            fabsl(g.at("variance").get<double>() - var * scale * scale) <= 1e-9L * magn * magn * scale * scale,
                        what + ": variance " + g.at("variance").dump() + ", expected " + num(var * scale * scale));
                c.check(close_to(g.at("min").get<double>(), mn * scale), what + ": min " + g.at("min").dump() + ", expected " + num(mn * scale));
                c.check(close_to(g.at("max").get<double>(), mx * scale), what + ": max " + g.at("max").dump() + ", expected " + num(mx * scale));
            };
            for (size_t k = 0; k < te.size() && !found; ++k) {
                if (used[k]) continue;
                auto& t = te[k];
                try {
                    check_meta(c, t, R.m, who);
                    std::vector<long double> dur;
                    std::vector<std::vector<long double>> cs(R.m.set < 2 ? ev[R.m.set].size() : 0);
                    long double total = 0;
                    for (auto& e : R.evs) {
                        if (!e.ended) continue;
                        dur.push_back(e.end - e.start);
                        total += e.end - e.start;
                        for (size_t q = 0; q < cs.size(); ++q) cs[q].push_back(e.counts[q]);
                    }
                    auto& met = t.at("args").at("metrics");
                    stat(met.at("runtime"), dur, 1e-3L, who + " runtime");
                    c.check(close_to(t.at("dur").get<double>(), total / 1000.0L), who + ": total duration " + t["dur"].dump() + ", expected " + num(total / 1000.0L));
                    if (!R.evs.empty())
                        c.check(t.at("ts").get<long long>() == R.evs[0].start / 1000, who + ": ts is not the first entry");
                    for (size_t q = 0; q < cs.size(); ++q) stat(met.at(ev[R.m.set][q]), cs[q], 1, who + " " + ev[R.m.set][q]);
                    size_t keys = 1 + cs.size();
                    for (auto& [n, v] : R.stat) {
                        std::vector<long double> lv(v.begin(), v.end());
                        stat(met.at("static:::" + n), lv, 1, who + " static " + n);
                        ++keys;
                    }
                    c.check(met.size() == keys, who + ": unexpected metrics " + met.dump());
                    used[k] = found = true;
                } catch (const Failure& f) {
                    why = f.what();
                } catch (const json::exception& x) {
                    why = who + ": " + x.what();
                }
            }
            c.check(found, why);
        }
        if (ended >= 2) c.nontrivial(c.trace.str());
    }
    if (n_re) c.label("region registered again");
    if (n_evict_re) c.label("region registered again after eviction");
    if (n_open) c.label("ended inside a region");
    if (n_noev) c.label("region never entered");
    if (ncpu) c.label("cpu events");
    if (!simple_meta) c.label("full metadata");
}

int main(int argc, char** argv) {
    Options o;
    o.id = MODE_AGG ? "C06" : "C05";
    o.rule = "random init/enter/exit/metric/finalize histories over 1-17 regions with scripted clock and counters, trace compared with a "
             "model; non-trivial = at least two completed executions, distinct by history";
    o.quick = 8000;
    o.thorough = 120000;
    return Runner(o, prop).main(argc, argv);
}
