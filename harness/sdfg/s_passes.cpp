// Every pass and pipeline preserves what a program computes.
#include "passes_common.h"
using namespace si;

static std::vector<PassEntry> group() {
#if GROUP == 1
    return dataflow_passes();
#elif GROUP == 2
    return control_passes();
#elif GROUP == 3
    return symbolic_passes();
#else
    return loop_passes();
#endif
}

static void prop(pbt::Src& s, pbt::Case& c) {
    auto g = group();
    auto all = dataflow_passes();
    for (auto& x : control_passes()) all.push_back(x);
    for (auto& x : symbolic_passes()) all.push_back(x);
    for (auto& x : loop_passes()) all.push_back(x);
    Profile p;
    p.max_stmts = 6;
    p.stmt_budget = 20;
    p.loop_heavy = s.flip();
    p.affine_only = s.chance(25);
    p.after_loop_indvar = getenv("AFTER") != nullptr;
    if (s.chance(25)) p.whiles = false, p.returns = false;
    std::vector<PassEntry> seq;
    static const char* only = getenv("PASS");
    int n = only ? 1 : 1 + (int) s.weighted({70, 20, 10});
    for (int k = 0; k < n; ++k) {
        PassEntry e;
        if (k + 1 < n && s.flip())
            e = all[s.below(all.size())];
        else
            e = g[s.below(g.size())];
        if (only)
            for (auto& a : all)
                if (a.name == only) e = a;
        seq.push_back(e);
    }
    for (auto& e : seq)
        for (auto& m : motifs_for(e.name))
            if (s.chance(75)) p.motifs.insert(m);
    if (seq.size() > 1 && seq[0].name.find("TensorToPointer") == std::string::npos) p.motifs.erase("tensors");
    Gen gen(s, p);
    Program pr = gen.make();
    std::vector<Input> ins;
    int ni = 2 + (int) s.below(2);
    for (int k = 0; k < ni; ++k) ins.push_back(make_input(s, pr));
    std::vector<Outcome> ref;
    bool any = false;
    for (auto& in : ins) {
        ref.push_back(reference(*pr.sdfg, pr, in));
        if (ref.back().ambiguous) c.discard();
        any |= ref.back().kind == Outcome::Done;
        if (ref.back().kind == Outcome::Unsup) throw std::runtime_error("harness: " + ref.back().why);
    }
    if (!any) c.discard();
    c << dump(*pr.sdfg) << "\n";
    builder::StructuredSDFGBuilder b(pr.sdfg);
    analysis::AnalysisManager am(b.subject());
    for (auto& e : seq) {
        c << "--- " << e.name << "\n";
        auto pass = e.make();
        int rounds = 0;
        bool once = s.chance(30);
        std::string before = dump(b.subject());
        while (pass->run(b, am)) {
            if (once || e.rounds == 0) break;
            if (++rounds > e.rounds) c.fail(e.name + " keeps reporting changes");
        }
        std::string now = dump(b.subject());
        if (now != before) {
            c << now << "\n";
            c.label("changed by " + e.name);
            c.nontrivial(e.name + before);
        }
        try {
            b.subject().validate();
        } catch (const std::exception& x) {
            c.fail(e.name + " leaves an invalid program: " + x.what());
        }
        for (size_t k = 0; k < ins.size(); ++k) {
            if (ref[k].kind != Outcome::Done) continue;
            RunOpts o;
            o.order = s.pick<Order>({Order::Forward, Order::Backward, Order::Shuffled});
            o.limit = ref[k].steps * 20 + 20000;
            auto r = execute(b.subject(), pr, ins[k], o);
            std::string d = compare(ref[k], r, pr);
            if (!d.empty()) c.fail("after " + e.name + " on " + ins[k].str() + ": " + d);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Options o;
    o.id = CHECK_ID;
    o.rule = "the pass sequence changed the program and the changed program was executed";
    o.address_dependent = true;
    o.slow_is_inconclusive = true;
    o.case_timeout_s = 20;
#if GROUP == 4
    o.quick = 3500;
#else
    o.quick = 6000;
#endif
    o.thorough = 120000;
    return pbt::Runner(o, prop).main(argc, argv);
}
