// Objective vectors with dynamic directions and Pareto relations by hand.
#ifndef VERIF_C22_H
#define VERIF_C22_H
#include "eoh.h"
#include <moeo>
namespace mob {
using namespace eoh;
typedef moeoObjectiveVectorTraits TR;
typedef moeoRealObjectiveVector<TR> OV;
typedef std::vector<double> V;
const double TOL = 1e-10;

// number of objectives and directions in force for one case
struct Setup {
    unsigned n;
    std::vector<bool> mins;
    void go() { Quiet q; OV::setup(n, mins); }
    Setup(Rand& r, unsigned lo, unsigned hi, int dirs = -1) : n((unsigned)r.range(lo, hi)) {
        int how = dirs >= 0 ? dirs : (int)r.below(4); // 0 all minimised, 1 all maximised, else mixed
        for (unsigned i = 0; i < n; ++i) mins.push_back(how == 0 ? true : how == 1 ? false : r.flip());
        go();
    }
    bool allMin() const { for (bool b : mins) if (!b) return false; return true; }
    bool allMax() const { for (bool b : mins) if (b) return false; return true; }
    bool mixed() const { return !allMin() && !allMax(); }
    // objective i of a is better than that of b
    bool better(unsigned i, double a, double b) const { return std::fabs(a - b) > TOL && (mins[i] ? a < b : a > b); }
    template <class A, class B> bool dom(const A& a, const B& b) const {
        bool some = false;
        for (unsigned i = 0; i < n; ++i) { if (better(i, b[i], a[i])) return false; if (better(i, a[i], b[i])) some = true; }
        return some;
    }
    template <class A, class B> bool weak(const A& a, const B& b) const { for (unsigned i = 0; i < n; ++i) if (better(i, b[i], a[i])) return false; return true; }
    template <class A, class B> bool strict(const A& a, const B& b) const { for (unsigned i = 0; i < n; ++i) if (!better(i, a[i], b[i])) return false; return true; }
    template <class A, class B> bool same(const A& a, const B& b) const { for (unsigned i = 0; i < n; ++i) if (std::fabs(a[i] - b[i]) > TOL) return false; return true; }
    std::string dirs() const { std::string s; for (bool b : mins) s += b ? "v" : "^"; return s; }
    // the same vector with every objective to be minimised
    template <class A> V down(const A& a) const { V v; for (unsigned i = 0; i < n; ++i) v.push_back(mins[i] ? (double)a[i] : -(double)a[i]); return v; }
};
template <class A> V plain(const A& a) { V v; for (size_t i = 0; i < a.size(); ++i) v.push_back((double)a[i]); return v; }
template <class A> std::string str(const A& a) { return show(plain(a)); }

// how coordinates are drawn
struct Draw {
    int how;
    double lo, hi;
    bool near;
    explicit Draw(Rand& r, bool mayNear = false) : how((int)r.below(5)), near(mayNear && r.flip(0.3)) {
        lo = how == 1 ? -5 : how == 2 ? -1e6 : how == 3 ? 0.5 : 0;
        hi = how == 0 ? 3 : how == 1 ? 5 : how == 2 ? 1e6 : how == 3 ? 10 : 1;
    }
    double operator()(Rand& r) const {
        double v = how == 0 || how == 1 ? (double)r.range((long)lo, (long)hi) : r.real(lo, hi);
        if (how == 2) v = std::floor(v);
        if (near && r.flip(0.3)) v += r.flip() ? 3e-11 : -3e-11;
        return v;
    }
    OV vec(Rand& r, unsigned n) const { OV o; for (unsigned i = 0; i < n; ++i) o[i] = (*this)(r); return o; }
};
// a non-dominated cloud: points on a simplex-like surface, optional noise behind it
inline OV onFront(Rand& r, const Setup& s, double back) {
    V w(s.n);
    double t = 0;
    for (auto& x : w) { x = r.u01() + 1e-6; t += x; }
    OV o;
    for (unsigned i = 0; i < s.n; ++i) { double v = 10 * w[i] / t + back; o[i] = s.mins[i] ? v : -v; }
    return o;
}
typedef moeoRealVector<OV> RInd;
template <class I> I indiv(const OV& o) { I i; i.objectiveVector(o); return i; }
inline std::vector<V> vecs(const eoPop<RInd>& p) { std::vector<V> o; for (size_t i = 0; i < p.size(); ++i) o.push_back(plain(p[i].objectiveVector())); return o; }
} // namespace mob
#endif
