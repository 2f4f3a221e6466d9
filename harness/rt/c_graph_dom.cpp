// C09: dominator and post-dominator trees against the definition (vertex removal).
#include "graph_common.h"
static const Vertex NIL = boost::graph_traits<Graph>::null_vertex();

// immediate dominators by definition, from the roots over (out) or (in) edges; -1 none, -2 unreachable
static std::vector<int> idoms(const G& x, const std::vector<int>& roots, bool rev) {
    auto reach = [&](int skip) {
        std::vector<bool> r(x.n, false);
        std::vector<int> st;
        for (int s : roots)
            if (s != skip) st.push_back(s), r[s] = true;
        while (!st.empty()) {
            int u = st.back();
            st.pop_back();
            for (int w : rev ? x.in[u] : x.out[u])
                if (w != skip && !r[w]) r[w] = true, st.push_back(w);
        }
        return r;
    };
    auto base = reach(-1);
    std::vector<std::vector<bool>> without;
    for (int d = 0; d < x.n; ++d) without.push_back(reach(d));
    std::vector<int> res(x.n, -1);
    for (int v = 0; v < x.n; ++v) {
        if (!base[v]) {
            res[v] = -2;
            continue;
        }
        // the immediate dominator is the one dominated by all the others
        for (int d = 0; d < x.n; ++d) {
            if (d == v || without[d][v]) continue;
            bool ok = true;
            for (int o = 0; o < x.n && ok; ++o)
                if (o != v && o != d && !without[o][v] && without[o][d]) ok = false;
            if (ok) res[v] = d;
        }
    }
    return res;
}

static void prop(Src& s, Case& c) {
    G x;
    bool post = s.flip();
    int shape = s.pick({2, 3, 4, 0, 1});
    size_t nmax = s.chance(15) ? 14 : 8;
    if (s.chance(1) && s.chance(20)) {
        nmax = 200;
        c.label("large graph");
    }
    gen(s, x, nmax, shape, true);
    c << (post ? "post-dominators of " : "dominators of ") << x.text() << "\n";
    auto name = [&](Vertex v) { return v == NIL ? std::string("none") : x.id.count(v) ? std::to_string(x.id[v]) : std::string("foreign"); };
    if (!post) {
        int root = shape == 0 || shape == 1 ? s.below(x.n) : 0;
        auto rr = x.reach(root);
        bool unreach = std::find(rr.begin(), rr.end(), false) != rr.end();
        auto t = graph::dominator_tree(x.g, x.v[root]);
        c.check((int) t.size() == x.n, "dominator tree does not cover every vertex");
        int deep = 0;
        auto wanted = idoms(x, {root}, false);
        for (int v = 0; v < x.n; ++v) {
            int want = v == root ? -1 : wanted[v];
            Vertex got = t.at(x.v[v]);
            if (want == -2) want = -1; // unreachable vertices have no dominator
            c.check(got == (want < 0 ? NIL : x.v[want]), "immediate dominator of " + std::to_string(v) + " from " + std::to_string(root) + " is " + name(got) +
                                                             ", expected " + (want < 0 ? "none" : std::to_string(want)));
            if (want >= 0 && want != root) ++deep;
        }
        if (unreach) c.label("unreachable vertices");
        unchanged(c, x, "dominator_tree");
        if (deep && x.e.size() >= (size_t) x.n) c.nontrivial("d" + x.text() + "@" + std::to_string(root));
    } else {
        std::vector<int> sinks;
        for (int i = 0; i < x.n; ++i)
            if (x.out[i].empty()) sinks.push_back(i);
        if (sinks.empty()) c.discard();
        auto t = graph::post_dominator_tree(x.g);
        int deep = 0;
        auto wanted = idoms(x, sinks, true);
        for (int v = 0; v < x.n; ++v) {
            c.check(t.count(x.v[v]), "post-dominator tree misses vertex " + std::to_string(v));
            int want = wanted[v];
            Vertex got = t.at(x.v[v]);
            if (want == -2) want = -1;
            c.check(got == (want < 0 ? NIL : x.v[want]), "immediate post-dominator of " + std::to_string(v) + " is " + name(got) + ", expected " +
                                                             (want < 0 ? "none" : std::to_string(want)));
            if (want >= 0) ++deep;
        }
        unchanged(c, x, "post_dominator_tree");
        auto t2 = graph::post_dominator_tree(x.g);
        for (int v = 0; v < x.n; ++v) {
            auto a = t.at(x.v[v]), b = t2.at(x.v[v]);
            if (a != NIL && !x.id.count(a)) a = NIL;
            if (b != NIL && !x.id.count(b)) b = NIL;
            c.check(a == b, "asking twice gives different post-dominators");
        }
        c.label(sinks.size() == 1 ? "one sink" : "several sinks");
        if (deep && x.e.size() >= 2) c.nontrivial("p" + x.text());
    }
    c.label(post ? "post" : "dom");
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C09";
    o.rule = "random flow graphs (rooted, structured, arbitrary, up to 14 vertices) with a root / one or several sinks; non-trivial = some "
             "vertex has an immediate (post-)dominator other than the root, distinct by graph";
    o.quick = 250000;
    o.thorough = 4000000;
    return Runner(o, prop).main(argc, argv);
}
