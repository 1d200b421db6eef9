// Individuals with an identity, and multiset helpers for the EO harnesses.
#ifndef VERIF_EOH_H
#define VERIF_EOH_H
#include "mon.h"
#include <eo>
#include <ga.h>
namespace eoh {
using namespace mon;

// An individual whose genotype is its identity; default constructed ones have id -1.
template <class F> struct Ind : public EO<F> {
    int id;
    Ind() : id(-1) {}
    Ind(int i, double f) : id(i) { this->fitness(f); }
    std::string className() const { return "Ind"; }
    void printOn(std::ostream& o) const { EO<F>::printOn(o); o << " #" << id; }
    void readFrom(std::istream& i) { EO<F>::readFrom(i); }
};
typedef eoMinimizingFitness MinF;
// a score that grows with quality, whatever the direction of the fitness
inline double good(double f) { return f; }
inline double good(const eoMinimizingFitness& f) { return -(double)f; }
template <class E> double val(const E& e) { return (double)e.fitness(); }
template <class E> double qual(const E& e) { return good(e.fitness()); }

// kinds of fitness patterns: 0 all equal, 1 few distinct, 2 distinct, 3 negative and huge, 4 sorted ascending, 5 sorted descending
inline std::vector<double> fitnesses(Rand& r, unsigned n, int kind = -1) {
    if (kind < 0) kind = (int)r.below(6);
    std::vector<double> v(n);
    for (unsigned i = 0; i < n; ++i) switch (kind) {
        case 0: v[i] = 2.5; break;
        case 1: v[i] = (double)r.range(0, 3); break;
        case 2: v[i] = r.real(-5, 5); break;
        case 3: v[i] = (r.flip() ? 1 : -1) * std::pow(10.0, r.real(-8, 8)); break;
        default: v[i] = (double)r.range(-20, 20);
        }
    if (kind == 4) std::sort(v.begin(), v.end());
    if (kind == 5) std::sort(v.rbegin(), v.rend());
    return v;
}
template <class E> eoPop<E> makePop(Rand& r, unsigned n, int firstId, int kind = -1) {
    eoPop<E> p;
    auto f = fitnesses(r, n, kind);
    for (unsigned i = 0; i < n; ++i) p.push_back(E(firstId + (int)i, f[i]));
    return p;
}
template <class P> std::string showPop(const P& p, size_t max = 30) {
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < p.size() && i < max; ++i) {
        o << (i ? " " : "") << p[i].id << ":";
        if (p[i].invalid()) o << "inv"; else o << val(p[i]);
    }
    if (p.size() > max) o << " ...";
    o << "}";
    return o.str();
}
template <class P> u64 hpop(const P& p) {
    u64 h = p.size();
    for (auto& e : p) h = mix(h, mix((u64)e.id, e.invalid() ? 1 : hdbl(val(e))));
    return h;
}
// sub-multiset: everybody in p is one of the individuals of pool, not more often than there, with its fitness
template <class P> std::string notSubset(const P& p, const std::map<int, std::pair<int, double>>& pool) {
    std::map<int, int> seen;
    for (auto& e : p) {
        auto it = pool.find(e.id);
        if (it == pool.end()) return cat("individual #", e.id, " was never available");
        if (++seen[e.id] > it->second.first) return cat("individual #", e.id, " appears ", seen[e.id], " times");
        if (e.invalid()) return cat("individual #", e.id, " lost its fitness");
        if (val(e) != it->second.second) return cat("individual #", e.id, " changed fitness ", it->second.second, " -> ", val(e));
    }
    return "";
}
template <class P> void addTo(std::map<int, std::pair<int, double>>& pool, const P& p) {
    for (auto& e : p) { auto& x = pool[e.id]; ++x.first; x.second = e.invalid() ? 0 : val(e); }
}
template <class P> std::multiset<int> ids(const P& p) { std::multiset<int> s; for (auto& e : p) s.insert(e.id); return s; }
template <class P> std::vector<int> idseq(const P& p) { std::vector<int> s; for (auto& e : p) s.push_back(e.id); return s; }
// qualities, best first
template <class P> std::vector<double> quals(const P& p) {
    std::vector<double> v;
    for (auto& e : p) v.push_back(qual(e));
    std::sort(v.rbegin(), v.rend());
    return v;
}
template <class P> double bestQ(const P& p) { double b = -std::numeric_limits<double>::infinity(); for (auto& e : p) b = std::max(b, qual(e)); return b; }
template <class V> V firstn(V v, size_t n) { v.resize(n); return v; }

// silence a component that prints
struct Quiet {
    std::ostringstream s;
    std::streambuf *o, *e, *l;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())), l(std::clog.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); }
};
} // namespace eoh
#endif
