// C04: the capture runtime records exactly the invocations its strategy selects, with the data seen at that moment.
#include "../pbt.h"
#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/daisy_rtl.h"
using namespace pbt;
namespace fs = std::filesystem;
using arg_capture::ArgCaptureIO;

struct MCap {
    int type;
    std::vector<size_t> dims;
    std::string bytes;
};
struct Idx {
    std::string target, eid;
    unsigned inv;
    std::map<std::pair<int, bool>, MCap> caps;
};

static void verify(Case& c, const fs::path& dir, const Idx& x) {
    fs::path f = dir / (x.target + "_inv" + std::to_string(x.inv) + "_" + x.eid + ".index.json");
    c.check(fs::exists(f), "index " + f.string() + " missing");
    auto io = ArgCaptureIO::from_index(f);
    c.check(io->get_name() == x.target && io->get_current_invocation(x.eid) == x.inv, "index names another target/invocation");
    auto& caps = io->get_captures().at(x.eid);
    c.check(caps.size() == x.caps.size(), f.filename().string() + " lists " + std::to_string(caps.size()) + " captures, expected " + std::to_string(x.caps.size()));
    for (auto& [k, m] : x.caps) {
        auto it = caps.find(k);
        std::string id = f.filename().string() + " arg" + std::to_string(k.first) + (k.second ? " out" : " in");
        c.check(it != caps.end(), id + " missing");
        c.check(it->second.primitive_type == m.type, id + ": type differs");
        c.check(it->second.dims == m.dims, id + ": dims differ");
        std::string got;
        if (it->second.data) got.assign(it->second.data->begin(), it->second.data->end());
        else {
            c.check((bool) it->second.ext_file && fs::exists(*it->second.ext_file), id + ": data file missing");
            std::ifstream in(*it->second.ext_file, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            got = ss.str();
        }
        c.check(got == m.bytes, id + ": captured data differs from the argument at capture time");
    }
}

static void prop(Src& s, Case& c) {
    fs::path root = fs::path(c.scratch) / "rt";
    fs::remove_all(root);
    fs::create_directories(root);
    if (chdir(root.c_str())) c.discard();
    const std::vector<std::string> strategies = {"", "all", "once", "never", "bogus"};
    size_t nctx = 1 + s.below(2);
    std::vector<__daisy_capture_t*> ctx;
    std::vector<int> strat;
    std::vector<fs::path> dirs;
    std::vector<std::string> names;
    for (size_t i = 0; i < nctx; ++i) {
        size_t st = s.below(5);
        if (st == 0) unsetenv("__DAISY_CAPTURE_STRATEGY_DEFAULT");
        else setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", strategies[st].c_str(), 1);
        bool env = s.flip(), arg = s.flip();
        std::string argdir = (root / ("arg" + std::to_string(i)) / "deep").string();
        std::string envdir = (root / ("env" + std::to_string(i))).string();
        if (env) setenv("__DAISY_CAPTURE_BASE_DIR", envdir.c_str(), 1);
        else unsetenv("__DAISY_CAPTURE_BASE_DIR");
        names.push_back(s.pick<std::string>({"fn", "__daisy_k-1.c", "a b", "\"q\"", "f_inv0_1"}) + std::to_string(i));
        auto* cx = __daisy_capture_init(names.back().c_str(), arg ? argdir.c_str() : nullptr);
        ctx.push_back(cx);
        strat.push_back(st);
        dirs.push_back(env ? fs::path(envdir) : arg ? fs::path(argdir) : root / "arg_captures");
        c << "ctx" << i << " strategy='" << strategies[st] << "' dir=" << dirs.back().string() << "\n";
    }
    // the environment only matters at initialisation
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", s.flip() ? "all" : "never", 1);
    setenv("__DAISY_CAPTURE_BASE_DIR", (root / "later").c_str(), 1);
    std::map<std::pair<size_t, std::string>, unsigned> counter;
    std::vector<Idx> done;
    std::vector<size_t> done_ctx;
    int steps = 0, captured = 0, skipped = 0, big = 0, fail_ops = 0;
    std::vector<size_t> eids = {5, 12, 123, 0};
    if (s.chance(15)) eids = {s.pick<size_t>({~0ull, 1ull << 32, 1ull << 63}), 4294967301ull, 65541, 261};
    bool long_history = s.chance(3);
    while (s.more(steps, 25, 6)) {
        ++steps;
        size_t i = s.below(nctx);
        size_t e = eids[s.below(4)];
        std::string es = std::to_string(e);
        auto key = std::make_pair(i, es);
        unsigned inv = counter.count(key) ? counter[key] + 1 : 0;
        counter[key] = inv;
        // a region may be entered very often before the invocation of interest
        if (long_history && s.chance(20)) {
            unsigned times = s.chance(4) ? 65530 + s.below(20) : 120 + s.below(300);
            for (unsigned q = 0; q < times; ++q) {
                bool e1 = strat[i] == 1 || (strat[i] != 3 && inv == 0);
                c.check(__daisy_capture_enter(ctx[i], e) == e1, "enter gave the wrong answer for invocation " + std::to_string(inv) + " of element " +
                                                                    es + " under strategy '" + strategies[strat[i]] + "'");
                __daisy_capture_end(ctx[i]);
                counter[key] = ++inv;
            }
            c << "entered " << times << " times without captures\n";
            c.label(times > 60000 ? "65536 invocations" : "hundreds of invocations");
        }
        bool expect = strat[i] == 1 || (strat[i] != 3 && inv == 0);
        bool got = __daisy_capture_enter(ctx[i], e);
        c << "enter ctx" << i << " element " << e << " (invocation " << inv << ") -> " << got << "\n";
        c.check(got == expect, "enter returned " + std::to_string(got) + " for invocation " + std::to_string(inv) + " of element " + es +
                                   " under strategy '" + strategies[strat[i]] + "'");
        Idx x{names[i], es, inv, {}};
        if (got) {
            ++captured;
            size_t n = s.chance(5) ? 10 + s.below(20) : s.below(5);
            bool after = false;
            for (size_t k = 0; k < n; ++k) {
                if (!after) after = s.flip();
                int arg = s.below(s.chance(20) ? 40 : 4), type = s.below(19), nd = s.below(4);
                size_t es_ = s.pick<size_t>({4, 8, 1, 2, 16, 10});
                std::vector<size_t> d;
                if (nd == 0) d = {s.chance(15) ? s.below(300) : 1 + s.below(40)};
                else d = {es_};
                for (int q = 0; q < nd; ++q) d.push_back(1 + s.below(s.chance(10) ? 40 : 6));
                size_t total = 1;
                for (auto v : d) total *= v;
                if (s.chance(2)) {
                    size_t blk = s.pick<size_t>({4096, 65536, 8192}) + s.below(3) - 1;
                    if (nd == 0) d = {blk};
                    else {
                        d.assign(nd + 1, 1);
                        if (blk % 8 == 0) d[0] = 8, blk /= 8;
                        d[1 + s.below(nd)] = blk;
                    }
                    total = 1;
                    for (auto v : d) total *= v;
                    c.label("block size");
                }
                if (total > 32) ++big;
                uint64_t st = s.below(1 << 16);
                std::string data(total, 0);
                for (auto& ch : data) ch = (char) splitmix(st);
                std::string copy = data;
                const void* p = data.empty() ? "" : data.data();
                if (nd == 0) __daisy_capture_raw(ctx[i], arg, p, d[0], type, after, e);
                else if (nd == 1) __daisy_capture_1d(ctx[i], arg, p, d[0], type, d[1], after, e);
                else if (nd == 2) __daisy_capture_2d(ctx[i], arg, p, d[0], type, d[1], d[2], after, e);
                else __daisy_capture_3d(ctx[i], arg, p, d[0], type, d[1], d[2], d[3], after, e);
                x.caps[{arg, after}] = {type, d, copy};
                for (auto& ch : data) ch = ~ch;
                c << "  capture arg" << arg << (after ? " out" : " in") << " " << nd << "d " << total << " bytes type " << type << "\n";
            }
        } else {
            ++skipped;
            if (!ctx[i] && s.chance(40)) {
                // calls on a disabled context do nothing
                double v[8] = {1, 2, 3, 4, 5, 6, 7, 8};
                __daisy_capture_raw(ctx[i], 0, v, sizeof v, 13, s.flip(), e);
                __daisy_capture_1d(ctx[i], 1, v, 8, 13, 8, s.flip(), e);
                __daisy_capture_2d(ctx[i], 2, v, 8, 13, 2, 4, s.flip(), e);
                __daisy_capture_3d(ctx[i], 3, v, 8, 13, 2, 2, 2, s.flip(), e);
            }
        }
        // generated code ends every region, captured or not
        __daisy_capture_end(ctx[i]);
        if (got && !x.caps.empty()) {
            done.push_back(x);
            done_ctx.push_back(i);
        }
    }
    // every recorded invocation is on disk, unaltered by later ones; nothing else is
    std::set<std::string> expected;
    for (size_t k = 0; k < done.size(); ++k) {
        verify(c, dirs[done_ctx[k]], done[k]);
        expected.insert((dirs[done_ctx[k]] / (done[k].target + "_inv" + std::to_string(done[k].inv) + "_" + done[k].eid + ".index.json")).string());
    }
    size_t idx_files = 0;
    for (auto& p : fs::recursive_directory_iterator(root)) {
        if (!p.is_regular_file()) continue;
        std::string n = p.path().string();
        if (n.size() > 11 && n.substr(n.size() - 11) == ".index.json") {
            ++idx_files;
            c.check(expected.count(n), "unexpected index " + n);
        }
    }
    c.check(idx_files == expected.size(), "number of indexes differs");
    // an argument that cannot be written is an error
    if (s.chance(15)) {
        fs::path blocked = root / "blocked";
        std::ofstream(blocked) << "x";
        setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
        setenv("__DAISY_CAPTURE_BASE_DIR", blocked.c_str(), 1);
        auto* cx = __daisy_capture_init("blocked", nullptr);
        c.check(__daisy_capture_enter(cx, 5), "enter returned false under strategy 'all'");
        double v[8] = {1, 2, 3, 4, 5, 6, 7, 8};
        int nd = s.below(4);
        bool after = s.flip(), thrown = false;
        try {
            if (nd == 0) __daisy_capture_raw(cx, 0, v, s.flip() ? 8 : 64, 13, after, 5);
            else if (nd == 1) __daisy_capture_1d(cx, 1, v, 8, 13, 8, after, 5);
            else if (nd == 2) __daisy_capture_2d(cx, 2, v, 8, 13, 2, 4, after, 5);
            else __daisy_capture_3d(cx, 3, v, 8, 13, 2, 2, 2, after, 5);
        } catch (const std::exception&) {
            thrown = true;
        }
        c.check(thrown, std::to_string(nd) + "d capture that cannot be written is not reported");
        c.label("write fault");
    }
    if (captured) c.label("captured");
    if (skipped) c.label("skipped");
    if (big) c.label(">32 bytes");
    for (auto x : strat) c.label("strategy " + strategies[x]);
    (void) fail_ops;
    if (!done.empty() && steps > 1) c.nontrivial(c.trace.str());
}

int main(int argc, char** argv) {
    Options o;
    o.id = "C04";
    o.rule = "1-2 capture contexts (strategy x base-dir configuration), random enter/capture/end histories over 4 elements, directory "
             "contents compared with a model; non-trivial = at least one captured and two entered invocations, distinct by history";
    o.quick = 15000;
    o.thorough = 250000;
    return Runner(o, prop).main(argc, argv);
}
