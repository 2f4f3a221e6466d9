// C08: traversal, ordering and component algorithms against brute-force references.
#include "graph_common.h"

static void prop(Src& s, Case& c) {
    G x;
    int shape = s.below(5);
    size_t nmax = s.chance(20) ? 24 : 9;
    if (s.chance(1) && s.chance(20)) {
        nmax = 320;
        c.label("large graph");
    }
    gen(s, x, nmax, shape);
    c << x.text() << "\n";
    int start = s.below(x.n);
    int n = x.n;
    // DFS
    auto order = graph::depth_first_search(x.g, x.v[start]);
    std::vector<int> o;
    for (auto v : order) {
        auto it = x.id.find(v);
        c.check(it != x.id.end(), "DFS returned a foreign vertex");
        o.push_back(it->second);
    }
    {
        std::set<int> seen(o.begin(), o.end());
        c.check(seen.size() == o.size(), "DFS visits a vertex twice");
        auto r = x.reach(start);
        c.check(!o.empty() && o[0] == start, "DFS does not begin at the start vertex");
        size_t nr = std::count(r.begin(), r.end(), true);
        c.check(o.size() >= nr, "DFS misses reachable vertices");
        for (size_t i = 0; i < nr; ++i) c.check(r[o[i]], "DFS leaves the reachable part before finishing it");
        c.check((int) o.size() == n, "DFS does not visit every vertex");
        // depth-first discipline
        std::vector<int> st;
        std::vector<bool> vis(n, false);
        for (int u : o) {
            while (!st.empty()) {
                bool pending = false, child = false;
                for (int w : x.out[st.back()]) {
                    if (!vis[w]) pending = true;
                    if (w == u) child = true;
                }
                if (!pending) {
                    st.pop_back();
                    continue;
                }
                c.check(child, "DFS order is not depth first at vertex " + std::to_string(u));
                break;
            }
            vis[u] = true;
            st.push_back(u);
        }
    }
    // cycles and topological order
    bool cyc = x.cyclic();
    c.check(graph::is_acyclic(x.g) == !cyc, std::string("is_acyclic is wrong on a ") + (cyc ? "cyclic" : "acyclic") + " graph");
    if (!cyc) {
        auto topo = graph::topological_sort(x.g);
        std::vector<int> p(n, -1);
        int k = 0;
        for (auto v : topo) {
            c.check(x.id.count(v), "topological order has a foreign vertex");
            c.check(p[x.id[v]] == -1, "topological order repeats a vertex");
            p[x.id[v]] = k++;
        }
        c.check(k == n, "topological order misses vertices");
        for (auto& [a, b] : x.e) c.check(p[a] < p[b], "topological order puts " + std::to_string(b) + " before " + std::to_string(a));
    } else {
        bool threw = false;
        try {
            graph::topological_sort(x.g);
        } catch (const boost::not_a_dag&) {
            threw = true;
        }
        c.check(threw, "topological_sort accepted a cyclic graph");
    }
    // back edges
    auto be = graph::back_edges(x.g, x.v[start]);
    {
        std::multiset<std::pair<int, int>> rest(x.e.begin(), x.e.end());
        std::vector<std::vector<bool>> R;
        for (int i = 0; i < n; ++i) R.push_back(x.reach(i));
        for (auto& e : be) {
            int a = x.id.at(boost::source(e, x.g)), b = x.id.at(boost::target(e, x.g));
            auto it = rest.find({a, b});
            c.check(it != rest.end(), "back edge reported more often than it exists");
            rest.erase(it);
            c.check(R[b][a], "back edge " + std::to_string(a) + ">" + std::to_string(b) + " lies on no cycle");
        }
        G y;
        y.n = n;
        y.out.resize(n);
        y.in.resize(n);
        for (auto& [a, b] : rest) {
            y.e.push_back({a, b});
            y.out[a].push_back(b);
        }
        c.check(!y.cyclic(), "removing the back edges leaves a cycle");
        if (!cyc) c.check(be.empty(), "back edges in an acyclic graph");
        // in a flow graph whose every retreating edge enters a dominator (reducible), the set is exactly those edges
        auto r0 = x.reach(start);
        bool all = std::all_of(r0.begin(), r0.end(), [](bool b) { return b; });
        if (all) {
            std::multiset<std::pair<int, int>> domb, got;
            auto dominates = [&](int d, int v) { return d == v || !x.reach(start, d)[v]; };
            for (auto& [a, b] : x.e)
                if (dominates(b, a)) domb.insert({a, b});
            G z;
            z.n = n;
            z.out.resize(n);
            z.in.resize(n);
            for (auto& [a, b] : x.e)
                if (!domb.count({a, b})) {
                    z.e.push_back({a, b});
                    z.out[a].push_back(b);
                }
            for (auto& e : be) got.insert({x.id.at(boost::source(e, x.g)), x.id.at(boost::target(e, x.g))});
            if (!z.cyclic()) {
                c.check(domb == got, "back edges of a reducible graph are not its loop edges");
                c.label("reducible");
            } else
                c.label("irreducible");
        }
    }
    // components
    auto scc = graph::strongly_connected_components(x.g);
    auto wcc = graph::weakly_connected_components(x.g);
    {
        std::vector<std::vector<bool>> R;
        for (int i = 0; i < n; ++i) R.push_back(x.reach(i));
        G u;
        u.n = n;
        u.out = x.out;
        u.in.resize(n);
        for (auto& [a, b] : x.e) u.out[b].push_back(a);
        std::set<size_t> sl, wl;
        c.check((int) scc.second.size() == n && (int) wcc.second.size() == n, "component map does not cover every vertex");
        for (int i = 0; i < n; ++i) {
            sl.insert(scc.second.at(x.v[i]));
            wl.insert(wcc.second.at(x.v[i]));
            auto ur = u.reach(i);
            for (int j = 0; j < n; ++j) {
                bool same = scc.second.at(x.v[i]) == scc.second.at(x.v[j]);
                c.check(same == (R[i][j] && R[j][i]), "strong component of " + std::to_string(i) + "," + std::to_string(j) + " wrong");
                bool ws = wcc.second.at(x.v[i]) == wcc.second.at(x.v[j]);
                c.check(ws == ur[j], "weak component of " + std::to_string(i) + "," + std::to_string(j) + " wrong");
            }
        }
        c.check((size_t) scc.first == sl.size(), "number of strong components wrong");
        c.check(wcc.first == wl.size(), "number of weak components wrong");
        if (wl.size() > 1) c.label("disconnected");
    }
    // undirected and reverse views
    auto und = graph::undirected(x.g);
    {
        auto& [ug, m, rm] = und;
        c.check((int) boost::num_vertices(*ug) == n && boost::num_edges(*ug) == x.e.size(), "undirected view has another size");
        c.check((int) m.size() == n && (int) rm.size() == n, "undirected view mapping incomplete");
        std::multiset<std::pair<int, int>> a, b;
        for (auto [s1, t1] : x.e) a.insert({std::min(s1, t1), std::max(s1, t1)});
        for (int i = 0; i < n; ++i) c.check(rm.at(m.at(x.v[i])) == x.v[i], "undirected mappings are not inverse");
        auto [eb, ee] = boost::edges(*ug);
        for (auto it = eb; it != ee; ++it) {
            int p = x.id.at(rm.at(boost::source(*it, *ug))), q = x.id.at(rm.at(boost::target(*it, *ug)));
            b.insert({std::min(p, q), std::max(p, q)});
        }
        c.check(a == b, "undirected view has other edges");
        auto rg = graph::reverse(x.g);
        std::multiset<std::pair<int, int>> fwd(x.e.begin(), x.e.end()), back;
        for (int i = 0; i < n; ++i) {
            auto [ob, oe] = boost::out_edges(x.v[i], rg);
            for (auto it = ob; it != oe; ++it) back.insert({x.id.at(boost::target(*it, rg)), i});
        }
        c.check(fwd == back, "reverse view has other edges");
    }
    unchanged(c, x, "a query");
    c.label("shape " + std::to_string(shape));
    c.label(cyc ? "cyclic" : "acyclic");
    if (n >= 3 && x.e.size() >= 2) c.nontrivial(x.text() + "@" + std::to_string(start));
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C08";
    o.rule = "random directed multigraphs (arbitrary, acyclic, rooted; up to 24 vertices; random insertion order) and start vertex; "
             "non-trivial = at least 3 vertices and 2 edges, distinct by graph and start";
    o.quick = 120000;
    o.thorough = 2000000;
    return Runner(o, prop).main(argc, argv);
}
