// Island topologies against their definition, through any sequence of
// constructions and isolations, and custom matrices as read from files.
#include "eoh.h"
#include <fstream>
#include <memory>
#include <smp>
#include <topology/customBooleanTopology.h>
#include <topology/customStochasticTopology.h>
using namespace mon;
using namespace paradiseo::smp;

namespace {
typedef std::vector<std::vector<char>> Adj;
Adj none(unsigned n) { return Adj(n, std::vector<char>(n, 0)); }
void compare(const AbstractTopology& t, const Adj& want, const std::string& what) {
    unsigned n = (unsigned)want.size();
    for (unsigned i = 0; i < n; ++i) {
        std::vector<unsigned> got = t.getIdNeighbors(i);
        std::vector<char> seen(n, 0);
        for (unsigned j : got) {
            CHECK(j < n, "unknown-node", what, ": node ", i, " of ", n, " has neighbour ", j);
            if (j >= n) continue;
            CHECK(!seen[j], "duplicate", what, ": neighbour ", j, " of node ", i, " is reported twice");
            seen[j] = 1;
        }
        for (unsigned j = 0; j < n; ++j) CHECK(seen[j] == want[i][j], "edges", what, ": edge ", i, " to ", j, " of ", n, " nodes is ", seen[j] ? "there" : "missing");
        event("edge", got.size());
    }
}
void cut(Adj& a, unsigned k) { for (unsigned i = 0; i < a.size(); ++i) a[i][k] = a[k][i] = 0; }
Adj mesh(unsigned n, unsigned h) {
    Adj a = none(n); unsigned w = n / h;
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) {
        unsigned i = y * w + x;
        if (x + 1 < w) a[i][i + 1] = a[i + 1][i] = 1;
        if (y + 1 < h) a[i][i + w] = a[i + w][i] = 1;
    }
    return a;
}
// the grids whose height to width ratio is closest to the requested one (several only for a tie)
std::vector<Adj> meshes(unsigned n, double ratio) {
    double best = 1e300; std::vector<unsigned> hs;
    for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0) best = std::min(best, std::fabs((double)h * h / n - ratio));
    std::vector<Adj> out;
    for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0 && std::fabs((double)h * h / n - ratio) <= best + 1e-9) out.push_back(mesh(n, h));
    return out;
}
bool same(const AbstractTopology& t, const Adj& want) {
    for (unsigned i = 0; i < want.size(); ++i) { std::vector<unsigned> w; for (unsigned j = 0; j < want.size(); ++j) if (want[i][j]) w.push_back(j); auto g = t.getIdNeighbors(i); std::sort(g.begin(), g.end()); if (g != w) return false; }
    return true;
}
}

UNIT(built, 1500, 20000, "complete,ring,star,hypercube,mesh,single,prime,isolated,rebuilt,large,other-centre,other-ratio,edge") {
    int kind = (int)(idx % 5);
    Topology<Complete> tc; Topology<Ring> tr; Topology<Star> ts; Topology<Hypercubic> th; Topology<Mesh> tm;
    AbstractTopology* t = kind == 0 ? (AbstractTopology*)&tc : kind == 1 ? (AbstractTopology*)&tr : kind == 2 ? (AbstractTopology*)&ts : kind == 3 ? (AbstractTopology*)&th : (AbstractTopology*)&tm;
    const char* name[] = {"complete", "ring", "star", "hypercube", "mesh"};
    int rounds = (int)r.range(1, 4);
    unsigned centre = 0; double ratio = 1;
    for (int k = 0; k < rounds; ++k) {
        unsigned n = (unsigned)r.size(1, 40);
        if (idx / 5 % 30 == 4 && !k) { n = (unsigned)r.range(258, 300); event("large"); }
        if (idx / 5 % 20 == 1 && !k) n = 1;
        if (kind == 3) { unsigned p = n == 1 ? 0 : n > 200 ? 9 : (unsigned)r.range(0, 6); n = 1u << p; }
        if (kind == 4 && r.flip(0.3)) n = r.pick(std::vector<unsigned>{2, 3, 5, 7, 11, 13, 31, 37, 12, 36, 24, 30});
        if (kind == 2 && (k || r.flip())) { centre = (unsigned)r.below(n); ts.getBuilder().setCenter(centre); event("other-centre"); }
        if (kind == 2 && centre >= n) { centre = 0; ts.getBuilder().setCenter(0); }
        if (kind == 4 && (k || r.flip())) { ratio = r.pick(std::vector<double>{0, 0.01, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.75, 0.9, 1, r.u01()}); tm.getBuilder().setRatio(ratio); event("other-ratio"); }
        Adj want = none(n);
        t->construct(n);
        std::string what = cat(name[kind], " of ", n, " nodes");
        if (kind == 0) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) want[i][j] = i != j;
        if (kind == 1) for (unsigned i = 0; i < n; ++i) if (n > 1) want[i][(i + 1) % n] = 1;
        if (kind == 2) { for (unsigned i = 0; i < n; ++i) want[i][centre] = i != centre; what += cat(" around ", centre); }
        if (kind == 3) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { unsigned x = i ^ j; want[i][j] = x && !(x & (x - 1)); }
        if (kind == 4) {
            what += cat(" for ratio ", ratio);
            auto all = meshes(n, ratio);
            want = all[0];
            for (auto& a : all) if (same(*t, a)) want = a;
            bool prime = n > 1; for (unsigned d = 2; d * d <= n; ++d) if (n % d == 0) prime = false;
            if (prime) event("prime");
        }
        compare(*t, want, what);
        event(name[kind]); if (n == 1) event("single"); if (k) event("rebuilt");
        int cuts = (int)r.below(4);
        for (int c = 0; c < cuts; ++c) { unsigned v = (unsigned)r.below(n); t->isolateNode(v); cut(want, v); compare(*t, want, cat(what, " after isolating ", v)); event("isolated"); }
        state(mix(mix(kind, n), mix(centre, hdbl(ratio))));
    }
}

namespace {
std::string file(const std::string& text, u64 idx) {
    std::string f = std::string(scratch()) + "/topo" + std::to_string(idx);
    std::ofstream o(f); o << text; return f;
}
}
UNIT(custom, 700, 8000, "boolean,stochastic,certain,bad-refused,missing-refused,isolated,rebuilt,wrong-size-refused,edge") {
    unsigned n = (unsigned)r.size(1, 12);
    bool stoch = idx % 2;
    std::vector<std::vector<double>> m(n, std::vector<double>(n));
    std::ostringstream o;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned j = 0; j < n; ++j) {
            double v = stoch ? r.pick(std::vector<double>{0, 1, 0.25, 0.5, 0.9, -2, 3}) : r.pick(std::vector<double>{0, 0, 1, 1, 2});
            o << (j ? (r.flip(0.2) ? "  " : r.flip(0.2) ? "\t" : " ") : r.flip(0.1) ? " " : "") << v;
            m[i][j] = v < 0 ? 0 : v > 1 ? 1 : v;
        }
        o << (r.flip(0.1) ? " \n" : "\n");
        if (r.flip(0.1)) o << "\n";
    }
    std::string f = file(o.str(), idx);
    std::shared_ptr<AbstractTopology> t;
    if (stoch) t = std::make_shared<CustomStochasticTopology>(f); else t = std::make_shared<CustomBooleanTopology>(f);
    auto judge = [&](const std::vector<std::vector<double>>& p, const char* when) {
        Adj lo = none(n), hi = none(n); bool sure = true;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { lo[i][j] = p[i][j] >= 1; hi[i][j] = p[i][j] > 0; if (lo[i][j] != hi[i][j]) sure = false; }
        if (sure) { compare(*t, lo, cat("custom topology ", when)); event("certain"); return; }
        const int N = 150;
        std::vector<std::vector<int>> c(n, std::vector<int>(n, 0));
        for (int k = 0; k < N; ++k) for (unsigned i = 0; i < n; ++i) { std::set<unsigned> s; for (unsigned j : t->getIdNeighbors(i)) { CHECK(j < n && s.insert(j).second, "duplicate", "a neighbour is unknown or reported twice"); if (j < n) ++c[i][j]; event("edge"); } }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            if (p[i][j] <= 0) CHECK(c[i][j] == 0, "edges", "edge ", i, " to ", j, " of probability 0 was reported ", when);
            else if (p[i][j] >= 1) CHECK(c[i][j] == N, "edges", "edge ", i, " to ", j, " of probability 1 was missing ", when);
            else CHECK(!deviates(c[i][j], N, p[i][j]), "probability", "edge ", i, " to ", j, " of probability ", p[i][j], " was reported ", c[i][j], " times of ", N, " ", when);
        }
    };
    judge(m, "as read");
    t->construct(n);
    judge(m, "after a construction");
    auto p = m;
    unsigned v = (unsigned)r.below(n);
    t->isolateNode(v);
    for (unsigned i = 0; i < n; ++i) p[i][v] = p[v][i] = 0;
    judge(p, "after an isolation"); event("isolated");
    if (r.flip()) { v = (unsigned)r.below(n); t->isolateNode(v); for (unsigned i = 0; i < n; ++i) p[i][v] = p[v][i] = 0; judge(p, "after two isolations"); }
    t->construct(n);
    judge(m, "rebuilt after an isolation"); event("rebuilt");
    auto refused = [&](std::function<void()> g) { try { g(); } catch (std::exception&) { return true; } return false; };
    CHECK(refused([&] { t->construct(n + 1 + (unsigned)r.below(3)); }), "wrong-size", "a custom topology of ", n, " nodes accepts another number of nodes"); event("wrong-size-refused");
    event(stoch ? "stochastic" : "boolean");
    auto open = [&](const std::string& g) { if (stoch) CustomStochasticTopology x(g); else CustomBooleanTopology x(g); };
    CHECK(refused([&] { open(std::string(scratch()) + "/no-such-file"); }), "missing-file", "a missing file is accepted"); event("missing-refused");
    std::string bad = r.flip() ? "0 1\n1 0\n0 1\n" : "0 1 1\n1 0\n0 1 0\n";
    CHECK(refused([&] { open(file(bad, idx)); }), "bad-file", "a matrix that is not square is accepted"); event("bad-refused");
    state(mix(hstr(o.str()), stoch));
    ::remove(f.c_str());
}
