#ifndef VERIF_C21_H
#define VERIF_C21_H
#include "c19.h"
#include <fstream>
using namespace ls;

// what the neighbourhood of a genotype looks like, by hand
template <class S> struct Hand {
    std::vector<double> raw; // raw fitness values, sorted
    double mean = 0, sd = 0, best, worst, q1, q2, q3, cur, mag = 0;
    unsigned n, sup = 0, inf = 0, eq = 0;
    Hand(const Land& l, Around around, const G& g) {
        cur = l(g);
        for (auto& x : around(g)) {
            double v = l(x);
            raw.push_back(v);
            if (v == cur) ++eq;
            else if (Q<S>(l, x) > Q<S>(l, g)) ++sup;
            else ++inf;
        }
        std::sort(raw.begin(), raw.end());
        n = (unsigned)raw.size();
        if (!n) return;
        long double s = 0, q = 0;
        for (double v : raw) { s += v; mag = std::max(mag, std::fabs(v)); }
        mean = (double)(s / n);
        for (double v : raw) q += ((long double)v - s / n) * ((long double)v - s / n);
        sd = n > 1 ? (double)sqrtl(q / (n - 1)) : 0;
        bool mini = std::is_same<typename S::Fitness, MinF>::value;
        best = mini ? raw.front() : raw.back();
        worst = mini ? raw.back() : raw.front();
        q1 = raw[n / 4];
        q2 = raw[n / 2];
        q3 = raw[3 * n / 4];
    }
    bool near(double a, double b) const { return std::fabs(a - b) <= 1e-9 * (1 + mag) || a == b; }
};
template <class N> struct Rev : public moNeighborComparator<N> {
    bool operator()(const N& a, const N& b) { return b.fitness() < a.fitness(); }
};
template <class N> struct Flat : public moSolNeighborComparator<N> {
    bool operator()(const typename N::EOT&, const N&) { return false; }
    bool equals(const typename N::EOT&, const N&) { return true; }
};

#endif
