#pragma once
#include "../pbt.h"
#include "sdfg/graph/graph.h"
#include <boost/graph/topological_sort.hpp>
using namespace pbt;
using namespace sdfg;
using graph::Edge;
using graph::Graph;
using graph::Vertex;

struct G {
    Graph g;
    std::vector<Vertex> v;
    std::unordered_map<Vertex, int> id;
    std::vector<std::pair<int, int>> e;
    std::vector<Edge> ed;
    int n = 0;
    std::vector<std::vector<int>> out, in;
    std::string text() const {
        std::ostringstream o;
        o << n << " vertices:";
        for (auto& [a, b] : e) o << " " << a << ">" << b;
        return o.str();
    }
    void build(int n_, const std::vector<std::pair<int, int>>& E) {
        n = n_;
        v.resize(n);
        out.resize(n);
        in.resize(n);
        for (int i = 0; i < n; ++i) {
            v[i] = boost::add_vertex(g);
            id[v[i]] = i;
        }
        for (auto& [a, b] : E) {
            ed.push_back(boost::add_edge(v[a], v[b], g).first);
            out[a].push_back(b);
            in[b].push_back(a);
        }
        e = E;
    }
    std::vector<bool> reach(int s, int skip = -1, bool rev = false) const {
        std::vector<bool> r(n, false);
        if (s == skip) return r;
        std::vector<int> st{s};
        r[s] = true;
        while (!st.empty()) {
            int u = st.back();
            st.pop_back();
            for (int w : rev ? in[u] : out[u])
                if (w != skip && !r[w]) {
                    r[w] = true;
                    st.push_back(w);
                }
        }
        return r;
    }
    bool cyclic() const { // Kahn
        std::vector<int> deg(n, 0);
        for (auto& [a, b] : e) deg[b]++;
        std::vector<int> q;
        for (int i = 0; i < n; ++i)
            if (!deg[i]) q.push_back(i);
        int k = 0;
        while (!q.empty()) {
            int u = q.back();
            q.pop_back();
            ++k;
            for (int w : out[u])
                if (!--deg[w]) q.push_back(w);
        }
        return k != n;
    }
};

// shape: 0 arbitrary, 1 acyclic, 2 rooted (every vertex reachable from 0), 3 rooted acyclic, 4 structured control flow like
inline void gen(Src& s, G& x, int nmax, int shape, bool multi = true, int min_n = 1) {
    int n = min_n + (int) s.len(nmax - min_n);
    x.n = n;
    std::vector<std::pair<int, int>> E;
    auto have = [&](int a, int b) { return std::find(E.begin(), E.end(), std::make_pair(a, b)) != E.end(); };
    auto add = [&](int a, int b) {
        if (!multi && have(a, b)) return;
        E.push_back({a, b});
    };
    if (shape == 2 || shape == 3)
        for (int i = 1; i < n; ++i) add((int) s.below(i), i);
    if (shape == 4) {
        for (int i = 1; i < n; ++i) add(s.chance(75) ? i - 1 : (int) s.below(i), i);
    }
    double avg = n * (s.flip() ? 1.6 : 0.7);
    while (s.more(E.size(), 4 * n + 4, avg)) {
        int a = s.below(n), b = s.below(n);
        if (shape == 1 || shape == 3) {
            if (a == b) continue;
            if (a > b) std::swap(a, b);
        }
        add(a, b);
    }
    // insertion order of vertices and edges is part of the input
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    if (s.flip())
        for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[s.below(i + 1)]);
    x.v.resize(n);
    for (int i = 0; i < n; ++i) {
        x.v[perm[i]] = boost::add_vertex(x.g);
        x.id[x.v[perm[i]]] = perm[i];
    }
    x.out.resize(n);
    x.in.resize(n);
    for (auto& [a, b] : E) {
        auto r = boost::add_edge(x.v[a], x.v[b], x.g);
        x.ed.push_back(r.first);
        x.out[a].push_back(b);
        x.in[b].push_back(a);
    }
    x.e = E;
}
inline void unchanged(Case& c, const G& x, const char* what) {
    c.check((int) boost::num_vertices(x.g) == x.n, std::string(what) + " changed the number of vertices of the graph");
    std::multiset<std::pair<int, int>> a(x.e.begin(), x.e.end()), b;
    auto [eb, ee] = boost::edges(x.g);
    for (auto it = eb; it != ee; ++it) {
        auto s1 = x.id.find(boost::source(*it, x.g)), t1 = x.id.find(boost::target(*it, x.g));
        c.check(s1 != x.id.end() && t1 != x.id.end(), std::string(what) + " left an edge to a foreign vertex");
        b.insert({s1->second, t1->second});
    }
    c.check(a == b, std::string(what) + " changed the edges of the graph");
}
