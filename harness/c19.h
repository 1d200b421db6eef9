// Landscapes, hand-made neighbour lists and trajectory recorders for the local search harnesses.
#ifndef VERIF_C19_H
#define VERIF_C19_H
#include "eoh.h"
#include <ga.h>
#include <eoInt.h>
#include <mo>
#include <eval/moFullEvalByCopy.h>
#include <eval/moFullEvalByModif.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <set>
namespace ls {
using namespace eoh;
typedef std::vector<long> G;
template <class V> G vals(const V& v) { G o; for (size_t i = 0; i < v.size(); ++i) o.push_back((long)v[i]); return o; }

// a deterministic landscape over genotypes
struct Land {
    int kind = 0;
    u64 salt = 0;
    long range = 3;
    double shift = 0, scale = 1;
    Land() {}
    explicit Land(Rand& r) : kind((int)r.below(5)), salt(r.below(1u << 30)), range(r.range(1, 40)), shift(r.flip(0.3) ? (double)r.range(-1000, 1000) : 0), scale(r.flip(0.2) ? 0.125 : r.flip(0.1) ? 1e12 : 1) {}
    double operator()(const G& g) const {
        double v = 0;
        switch (kind) {
        case 0: v = (double)(hvec(g, salt) % (u64)range); break;                                   // rugged with ties
        case 1: for (size_t i = 0; i < g.size(); ++i) v += (double)(g[i] * (long)((salt >> (i % 20)) % 7)) * (double)(i + 1); break; // linear
        case 2: for (size_t i = 0; i + 1 < g.size(); ++i) v += (double)((mix(salt + i, (u64)(g[i] * 31 + g[i + 1]))) % 9); break;   // local interactions
        case 3: v = (double)(hvec(g, salt) % 1000003); break;                                      // rugged, hardly any tie
        default: for (size_t i = 0; i < g.size(); ++i) v += g[i] == 1; v = std::floor(v / 2);      // plateaus
        }
        return shift + scale * v;
    }
};
template <class S> struct Full : public eoEvalFunc<S> {
    const Land* l;
    bool lazy;
    size_t calls = 0;
    Full(const Land& x, bool z) : l(&x), lazy(z) {}
    void operator()(S& s) { if (lazy && !s.invalid()) return; ++calls; s.fitness((*l)(vals(s))); }
};
// quality (the larger the better) of a genotype
template <class S> double Q(const Land& l, const G& g) { double v = l(g); return std::is_same<typename S::Fitness, MinF>::value ? -v : v; }

// neighbours by hand
inline std::vector<G> flips(const G& g) { std::vector<G> o; for (size_t i = 0; i < g.size(); ++i) { o.push_back(g); o.back()[i] = !g[i]; } return o; }
inline std::vector<G> swaps(const G& g) { std::vector<G> o; for (size_t i = 0; i < g.size(); ++i) for (size_t j = i + 1; j < g.size(); ++j) { o.push_back(g); std::swap(o.back()[i], o.back()[j]); } return o; }
inline std::vector<G> reversals(const G& g) { std::vector<G> o; for (size_t i = 0; i < g.size(); ++i) for (size_t j = i + 1; j < g.size(); ++j) { o.push_back(g); std::reverse(o.back().begin() + i, o.back().begin() + j + 1); } return o; }
inline std::vector<G> shifts(const G& g) {
    std::vector<G> o;
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) if (i != j) { G h = g; long v = h[i]; h.erase(h.begin() + i); h.insert(h.begin() + j, v); o.push_back(h); }
    return o;
}
typedef std::vector<G> (*Around)(const G&);

struct Point { G g; bool valid; double q; };
template <class S> Point point(const S& s) { Point p; p.g = vals(s); p.valid = !s.invalid(); p.q = p.valid ? qual(s) : 0; return p; }
// what happened in one iteration: neighbours evaluated (in order), then the current solution
struct Step { std::vector<Point> tried; Point after; };
struct Trace { std::vector<Step> steps; std::vector<Point> now; Point start; bool ended = false; int inits = 0, lasts = 0; Point last; };
template <class N> struct RecEval : public moEval<N> {
    typedef typename N::EOT S;
    moEval<N>& in;
    Trace& t;
    RecEval(moEval<N>& i, Trace& x) : in(i), t(x) {}
    void operator()(S& s, N& n) {
        in(s, n);
        S m(s);
        n.move(m);
        Point p;
        p.g = vals(m);
        p.valid = !n.invalid();
        p.q = p.valid ? qual(n) : 0;
        t.now.push_back(p);
    }
};
template <class N> struct RecCont : public moContinuator<N> {
    typedef typename N::EOT S;
    Trace& t;
    size_t limit;
    RecCont(Trace& x, size_t l) : t(x), limit(l) {}
    void init(S& s) { t.steps.clear(); t.now.clear(); t.start = point(s); ++t.inits; }
    bool operator()(S& s) {
        Step x;
        x.tried.swap(t.now);
        x.after = point(s);
        t.steps.push_back(x);
        t.ended = t.steps.size() >= limit;
        return !t.ended;
    }
    void lastCall(S& s) { ++t.lasts; t.last = point(s); }
};
template <class S> S make(Rand& r, unsigned n, bool perm) {
    S s(n);
    if (perm) { G p(n); for (unsigned i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for (unsigned i = 0; i < n; ++i) s[i] = (typename S::AtomType)p[i]; }
    else { int how = (int)r.below(4); for (unsigned i = 0; i < n; ++i) s[i] = how == 0 ? 0 : how == 1 ? 1 : r.flip(); }
    return s;
}
inline bool contains(const std::vector<G>& v, const G& g) { return std::find(v.begin(), v.end(), g) != v.end(); }

// a way to search: neighbour type, neighbourhood and hand-made neighbours
template <class S, bool MIN> struct Types;
typedef eoBit<double> Bit;
typedef eoBit<MinF> BitMin;
typedef eoInt<double> Perm;
typedef eoInt<MinF> PermMin;
} // namespace ls
#endif
