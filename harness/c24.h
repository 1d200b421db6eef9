// Populations of individuals with objective vectors, tagged so that assignments may permute them.
#ifndef VERIF_C24_H
#define VERIF_C24_H
#include "c22.h"
namespace mob {
inline RInd tagged(const OV& o, size_t id) { RInd i(1, (double)id); i.objectiveVector(o); return i; }
// coordinates on a grid much coarser than the equality tolerance
inline OV grid(OV o) { for (size_t i = 0; i < o.size(); ++i) o[i] = std::round(o[i] * 1048576) / 1048576; return o; }
struct Pop {
    std::vector<V> v;
    eoPop<RInd> p;
    bool ties = false, dups = false;
    void add(const OV& o) { v.push_back(plain(o)); p.push_back(tagged(o, v.size() - 1)); }
    void look(const Setup& s) {
        ties = dups = false;
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) {
            if (v[i] == v[j]) dups = true;
            for (unsigned k = 0; k < s.n; ++k) if (v[i][k] == v[j][k]) ties = true;
        }
    }
    void shuffle(Rand& r) { std::vector<RInd> w(p.begin(), p.end()); for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[r.below(i)]); p.clear(); for (auto& x : w) p.push_back(x); }
    Pop() {}
    Pop(Rand& r, const Setup& s, size_t lo, size_t hi) {
        Draw d(r);
        bool front = r.flip(0.3);
        double dup = r.flip() ? 0 : r.u01() * 0.6;
        size_t n = r.size(lo, hi);
        for (size_t i = 0; i < n; ++i) {
            OV o = front ? onFront(r, s, r.flip() ? 0 : 5 * r.u01()) : d.vec(r, s.n);
            if (i && r.flip(dup)) { size_t k = r.below(i); for (unsigned j = 0; j < s.n; ++j) o[j] = v[k][j]; if (r.flip(0.3)) o[r.below(s.n)] += 1; }
            add(grid(o));
        }
        look(s);
    }
    // the individuals of p are still those of v, each exactly once; gives the place of each
    template <class P> std::vector<size_t> places(const P& q, const char* what) const {
        CHECK(q.size() == v.size(), "population-size", what, ": ", v.size(), " individuals became ", q.size());
        std::vector<size_t> at(v.size(), (size_t)-1);
        for (size_t i = 0; i < q.size(); ++i) {
            size_t id = (size_t)q[i][0];
            CHECK(id < v.size() && at[id] == (size_t)-1 && plain(q[i].objectiveVector()) == v[id], "population-kept", what, ": the individuals were altered, lost or doubled");
            at[id] = i;
        }
        return at;
    }
    std::vector<double> fitness(const char* what) const {
        std::vector<double> f;
        for (size_t i : places(p, what)) { CHECK(!p[i].invalidFitness(), "unassigned", what, ": an individual has no fitness"); f.push_back(p[i].fitness()); CHECK(std::isfinite(f.back()), "not-finite", what, ": fitness ", f.back()); }
        return f;
    }
    std::vector<double> diversity(const char* what) const {
        std::vector<double> f;
        for (size_t i : places(p, what)) { CHECK(!p[i].invalidDiversity(), "unassigned", what, ": an individual has no diversity"); f.push_back(p[i].diversity()); CHECK(std::isfinite(f.back()), "not-finite", what, ": diversity ", f.back()); }
        return f;
    }
};
inline std::string label(const Setup& s, const Pop& p) { return cat(s.dirs(), ", ", p.v.size(), " individuals"); }
} // namespace mob
#endif
