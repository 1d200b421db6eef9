// Oracles of the set metrics.
#ifndef VERIF_C25_H
#define VERIF_C25_H
#include "c24.h"
#include <memory>
namespace mob {
inline std::vector<OV> vectors(const std::vector<V>& v) {
    std::vector<OV> o;
    for (auto& x : v) { OV y; for (size_t i = 0; i < x.size(); ++i) y[i] = x[i]; o.push_back(y); }
    return o;
}
inline std::string list(const std::vector<V>& v) { std::string s = " {"; for (size_t i = 0; i < v.size() && i < 12; ++i) s += show(v[i]); return s + (v.size() > 12 ? "...}" : "}"); }
// volume of the union of the boxes from the origin to each point, slice by slice along the last axis
inline double hyper(std::vector<V> e, unsigned n) {
    if (e.empty()) return 0;
    if (n == 1) { double m = 0; for (auto& v : e) m = std::max(m, v[0]); return m; }
    std::sort(e.begin(), e.end(), [n](const V& a, const V& b) { return a[n - 1] > b[n - 1]; });
    double vol = 0;
    if (n == 2) { // sweep
        double wide = 0;
        for (size_t i = 0; i < e.size(); ++i) {
            wide = std::max(wide, e[i][0]);
            vol += wide * (e[i][1] - (i + 1 < e.size() ? e[i + 1][1] : 0));
        }
        return vol;
    }
    for (size_t i = 0; i < e.size(); ++i) {
        double thick = e[i][n - 1] - (i + 1 < e.size() ? e[i + 1][n - 1] : 0);
        if (thick == 0) continue;
        vol += thick * hyper(std::vector<V>(e.begin(), e.begin() + (long)i + 1), n - 1);
    }
    return vol;
}
inline double crossed(const std::vector<V>& e, unsigned n) {
    double vol = 0;
    for (unsigned m = 1; m < (1u << e.size()); ++m) {
        double b = 1;
        for (unsigned i = 0; i < n; ++i) { double x = 1e300; for (size_t k = 0; k < e.size(); ++k) if (m >> k & 1) x = std::min(x, e[k][i]); b *= x; }
        vol += __builtin_popcount(m) % 2 ? b : -b;
    }
    return vol;
}
} // namespace mob
#endif
