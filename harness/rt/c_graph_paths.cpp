// C10: all_simple_paths enumerates exactly the simple paths between two different vertices.
#include "graph_common.h"
static void all(const G& x, int u, int dst, std::vector<bool>& on, std::vector<int>& cur, std::set<std::vector<int>>& res) {
    for (size_t k = 0; k < x.e.size(); ++k) {
        if (x.e[k].first != u) continue;
        int w = x.e[k].second;
        if (on[w] && w != dst) continue;
        cur.push_back(k);
        if (res.size() > 3000) {
        } else if (w == dst) res.insert(cur);
        else {
            on[w] = true;
            all(x, w, dst, on, cur, res);
            on[w] = false;
        }
        cur.pop_back();
    }
}
static void prop(Src& s, Case& c) {
    G x;
    if (s.chance(2)) {
        // a long line with a few shortcuts and back edges: long paths
        int n = 20 + s.below(280);
        std::vector<std::pair<int, int>> E;
        for (int i = 1; i < n; ++i) E.push_back({i - 1, i});
        for (int k = s.below(7); k > 0; --k) E.push_back({(int) s.below(n), (int) s.below(n)});
        x.build(n, E);
        c.label("long graph");
    } else {
        gen(s, x, 7, s.below(5), true, 2);
        if (x.e.size() > 16) c.discard();
    }
    int a = s.below(x.n), b = s.below(x.n);
    if (x.n > 7 && s.flip()) a = s.below(3), b = x.n - 1 - s.below(3);
    if (a == b && s.chance(70)) b = (b + 1) % x.n;
    if (a == b) c.label("cycles through a vertex");
    c << x.text() << " from " << a << " to " << b << "\n";
    std::set<std::vector<int>> want;
    std::vector<bool> on(x.n, false);
    on[a] = true;
    std::vector<int> cur;
    all(x, a, b, on, cur, want);
    if (want.size() > 3000) c.discard();
    auto got = graph::all_simple_paths(x.g, x.v[a], x.v[b]);
    std::set<std::vector<int>> g;
    for (auto& p : got) {
        std::vector<int> q;
        int at = a;
        std::set<int> seen;
        if (a != b) seen.insert(a); // from a vertex to itself the simple cycles are wanted
        for (auto& e : p) {
            int k = std::find(x.ed.begin(), x.ed.end(), e) - x.ed.begin();
            c.check(k < (int) x.ed.size(), "path uses a foreign edge");
            q.push_back(k);
            c.check(x.e[k].first == at, "path is not connected");
            at = x.e[k].second;
            c.check(seen.insert(at).second, "path visits vertex " + std::to_string(at) + " twice");
        }
        c.check(at == b, "path does not end at the destination");
        c.check(g.insert(q).second, "a path is reported twice");
    }
    c.check(g == want, "found " + std::to_string(g.size()) + " paths, there are " + std::to_string(want.size()));
    unchanged(c, x, "all_simple_paths");
    c.label(want.empty() ? "no path" : want.size() == 1 ? "one path" : "several paths");
    if (want.size() > 1) c.nontrivial(x.text() + std::to_string(a) + ">" + std::to_string(b));
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C10";
    o.rule = "random directed multigraphs up to 7 vertices / 16 edges with distinct end points; non-trivial = at least two simple paths, distinct by graph";
    o.quick = 400000;
    o.thorough = 5000000;
    return Runner(o, prop).main(argc, argv);
}
