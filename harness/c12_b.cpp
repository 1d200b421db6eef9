// C12: multi-objective individuals as text.
#include "eoh.h"
#include <moeo>
using namespace eoh;
struct T3 : public moeoObjectiveVectorTraits {};
typedef moeoRealObjectiveVector<T3> O3;
template <class E> void setGenes(E& e, Rand& r) { e.resize(r.flip(0.03) ? (size_t)r.range(257, 900) : r.size(0, 12)); for (size_t i = 0; i < e.size(); ++i) e[i] = (typename E::AtomType)r.range(0, 1); }
typedef moeoRealVector<O3> R; typedef moeoBitVector<O3> B; typedef moeoIntVector<O3> I;
template <> void setGenes(R& e, Rand& r) { e.resize(r.size(0, 12)); for (auto& x : e) x = r.real(-1, 1) * std::pow(10., r.real(-200, 200)); }
template <> void setGenes(I& e, Rand& r) { e.resize(r.size(0, 12)); for (auto& x : e) x = (int)r.range(-2000000000, 2000000000); }
template <class E> void random(E& e, Rand& r) {
    setGenes(e, r); e.invalidate();
    if (r.flip(0.7)) { O3 o; for (size_t i = 0; i < o.size(); ++i) o[i] = r.flip(0.2) ? 0 : r.real(-1, 1) * std::pow(10., r.real(-200, 200)); e.objectiveVector(o); }
}
template <class E> bool same(const E& a, const E& b, const char* name) {
    bool v = a.invalidObjectiveVector() == b.invalidObjectiveVector(); CHECK(v, "validity-differs", name);
    if (!v) return false;
    bool f = true; if (!a.invalidObjectiveVector()) for (size_t i = 0; i < a.objectiveVector().size(); ++i) f &= a.objectiveVector()[i] == b.objectiveVector()[i];
    CHECK(f, "fitness-differs", name, ": objectives");
    bool g = a.size() == b.size(); for (size_t i = 0; g && i < a.size(); ++i) g = a[i] == b[i];
    CHECK(g, "genotype-differs", name, " of ", a.size(), " genes read as ", b.size()); return f && g;
}
template <class E> void trip(Rand& r, const char* name) {
    E a, b; random(a, r); random(b, r);
    std::stringstream s; s.precision(17); s << "12 " << a << " 77 tail"; int k = 0; std::string t; s >> k; s >> b; event("individual"); event(cat("type:", name).c_str());
    if (same(a, b, name)) state(mix(hstr(name), a.size())); s >> k >> t; CHECK(k == 77 && t == "tail", "stream-misplaced", name);
    eoPop<E> p, q; unsigned n = (unsigned)r.below(8); for (unsigned i = 0; i < n; ++i) { p.push_back(a); random(p.back(), r); } for (unsigned i = 0; i < (unsigned)r.below(9); ++i) q.push_back(a);
    std::stringstream z; z.precision(17); z << p << " 78"; z >> q; event("population"); CHECK(q.size() == n, "size-differs", name); for (unsigned i = 0; i < n && i < q.size(); ++i) if (!same(p[i], q[i], name)) break; k = 0; z >> k; CHECK(k == 78, "stream-misplaced", name, " population");
}
UNIT(multi, 900, 15000, "individual,population") {
    std::vector<bool> mins{true, false, true}; unsigned n = 1 + (unsigned)idx % 3; mins.resize(n); O3::setup(n, mins);
    switch ((idx / 3) % 3) { case 0: trip<R>(r, "multi-objective reals"); break; case 1: trip<B>(r, "multi-objective bits"); break; default: trip<I>(r, "multi-objective integers"); }
}
