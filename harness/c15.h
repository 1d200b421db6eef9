// Populations of individuals under every order of fitness.
#ifndef VERIF_C15_H
#define VERIF_C15_H
#include "eoh.h"
#include <es/eoReal.h>
#include <ga/eoBit.h>
#include <eoInt.h>
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <utils/eoFDCStat.h>
#include <utils/eoFeasibleRatioStat.h>
#include <utils/eoFuncPtrStat.h>
#include <utils/eoPopStat.h>
#include <utils/eoScalarFitnessStat.h>
#include <utils/eoAssembledFitnessStat.h>
#include <utils/eoMOFitnessStat.h>
#include <utils/eoDistance.h>
using namespace eoh;

typedef eoMaximizingDualFitness DMax; typedef eoMinimizingDualFitness DMin;
// quality as a pair (feasible, score): bigger is better
template <class F> std::pair<int, double> rank(const F& f) { return {0, good(f)}; }
template <> inline std::pair<int, double> rank(const DMax& f) { return {f.is_feasible(), f.value()}; }
template <> inline std::pair<int, double> rank(const DMin& f) { return {f.is_feasible(), -f.value()}; }
template <> inline std::pair<int, double> rank(const int& f) { return {0, f}; }
template <class F> F make(Rand& r, double v) { (void)r; return F(v); }
template <> inline DMax make(Rand& r, double v) { return DMax(v, r.flip()); }
template <> inline DMin make(Rand& r, double v) { return DMin(v, r.flip()); }
template <> inline int make(Rand&, double v) { return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : (int)v; }
template <class E> struct PopOf { eoPop<E> operator()(Rand& r, unsigned n, int kind = -1) { eoPop<E> p; auto v = fitnesses(r, n, kind); for (unsigned i = 0; i < n; ++i) { E e; e.id = (int)i; e.fitness(make<typename E::Fitness>(r, v[i])); p.push_back(e); } return p; } };
template <class E> std::pair<int, double> rk(const E& e) { return rank(e.fitness()); }
template <class P> std::vector<std::pair<int, double>> ranks(const P& p) { std::vector<std::pair<int, double>> v; for (auto& e : p) v.push_back(rk(e)); std::sort(v.rbegin(), v.rend()); return v; }
inline unsigned someSize(Rand& r) { return r.flip(0.004) ? 70000u : r.flip(0.03) ? (unsigned)r.range(250, 1500) : (unsigned)r.size(1, 40); }
template <class V> bool sameFit(const V& a, const V& b) { std::map<int, std::pair<int, double>> m; for (auto& e : a) m[e.id] = rk(e); for (auto& e : b) { auto it = m.find(e.id); if (it == m.end() || it->second != rk(e)) return false; } return true; }

#endif
