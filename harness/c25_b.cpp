// Pairwise metrics, contribution, entropy, statistics and updaters over objective vectors.
#include "c25.h"
#include <sys/stat.h>
#include <fstream>
#include <utils/moeoArchiveObjectiveVectorSavingUpdater.h>
#include <utils/moeoBestObjVecStat.h>
#include <utils/moeoAverageObjVecStat.h>
#include <utils/moeoBinaryMetricSavingUpdater.h>
#include <utils/moeoBinaryMetricStat.h>
#include <utils/moeoConvertPopToObjectiveVectors.h>
using namespace mob;

UNIT(pairs, 4000, 80000, "epsilon,hypervolume,dominating,dominated,incomparable,equal,tight,wide") {
    Setup s(r, 1, 5);
    Pop p(r, s, 2, 12);
    double rho = r.pick(std::vector<double>{0.5, 1, 1.1, 2});
    Quiet q;
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    moeoHypervolumeBinaryMetric<OV> hv(rho);
    if (rho < 1) rho = 1;
    V lo = p.v[0], hi = p.v[0];
    for (auto& v : p.v) for (unsigned i = 0; i < s.n; ++i) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); }
    bool wide = r.flip(0.3);
    for (unsigned i = 0; i < s.n; ++i) {
        if (wide) { lo[i] -= r.u01(); hi[i] += 1 + r.u01(); }
        if (lo[i] == hi[i]) hi[i] += 1;
        if (r.flip()) { eps.setup(lo[i], hi[i], i); hv.setup(lo[i], hi[i], i); }
        else { eps.setup(eoRealInterval(lo[i], hi[i]), i); hv.setup(eoRealInterval(lo[i], hi[i]), i); }
    }
    event(wide ? "wide" : "tight");
    for (int k = 0; k < 6; ++k) {
        V a = r.pick(p.v), b = r.pick(p.v);
        OV x = vectors({a})[0], y = vectors({b})[0];
        double want = -1e300;
        std::vector<V> e(2);
        for (unsigned i = 0; i < s.n; ++i) {
            double w = hi[i] - lo[i];
            want = std::max(want, (s.mins[i] ? a[i] - b[i] : b[i] - a[i]) / w);
            e[0].push_back((rho - (s.mins[i] ? a[i] - lo[i] : hi[i] - a[i]) / w) / rho);
            e[1].push_back((rho - (s.mins[i] ? b[i] - lo[i] : hi[i] - b[i]) / w) / rho);
        }
        double got = eps(x, y);
        CHECK(close(got, want, 1e-9, 1e-9), "epsilon-pair", "additive epsilon of ", show(a), " against ", show(b), " (", s.dirs(), ") is ", got, ", expected ", want);
        event("epsilon");
        double both = hyper(e, s.n), va = hyper({e[0]}, s.n), vb = hyper({e[1]}, s.n);
        want = s.dom(a, b) ? vb - va : both - va;
        got = hv(x, y);
        CHECK(close(got, want, 1e-8, 1e-9), "hypervolume-pair", "hypervolume indicator of ", show(a), " against ", show(b), " (", s.dirs(), ", rho ", rho, ") is ", got, ", expected ", want);
        event("hypervolume");
        event(s.dom(a, b) ? "dominating" : s.dom(b, a) ? "dominated" : s.same(a, b) ? "equal" : "incomparable");
        state(mix(hdbl(got), s.n));
    }
}

namespace {
// distinct non-dominated members
std::vector<V> pareto(const Setup& s, const std::vector<V>& in) {
    std::vector<V> out;
    for (auto& v : in) {
        bool keep = true;
        for (auto& w : in) if (s.dom(w, v)) keep = false;
        for (auto& w : out) if (s.same(w, v)) keep = false;
        if (keep) out.push_back(v);
    }
    return out;
}
}

UNIT(contribution, 2500, 50000, "shared,winning,losing,incomparable,identical,disjoint,large") {
    Setup s(r, 1, 5);
    bool large = idx % 100 == 0;
    Pop p(r, s, large ? 300 : 1, large ? 420 : 25);
    std::vector<V> a, b;
    double share = r.u01();
    for (auto& v : p.v) { if (r.flip(share)) { a.push_back(v); b.push_back(v); } else (r.flip() ? a : b).push_back(v); }
    if (a.empty()) a = p.v;
    if (b.empty()) b = p.v;
    a = pareto(s, a); b = pareto(s, b);
    r.shuffle(a); r.shuffle(b);
    double c = 0, w1 = 0, w2 = 0, n1 = 0, n2 = 0;
    auto count = [&](const std::vector<V>& x, const std::vector<V>& y, double& w, double& n) {
        for (auto& v : x) {
            bool same = false, wins = false, loses = false;
            for (auto& u : y) { same = same || s.same(u, v); wins = wins || s.dom(v, u); loses = loses || s.dom(u, v); }
            if (same) continue;
            if (wins) { w += 1; event("winning"); }
            else if (loses) event("losing");
            else { n += 1; event("incomparable"); }
        }
    };
    for (auto& v : a) for (auto& u : b) if (s.same(u, v)) { c += 1; event("shared"); }
    count(a, b, w1, n1); count(b, a, w2, n2);
    double want = (c / 2 + w1 + n1) / (c + w1 + n1 + w2 + n2);
    moeoContributionMetric<OV> m;
    double got = m(vectors(a), vectors(b)), back = m(vectors(b), vectors(a));
    CHECK(close(got, want), "contribution", "contribution (", s.dirs(), ") is ", got, ", expected ", want, list(a), list(b));
    CHECK(close(got + back, 1), "contribution-sum", "the contributions of two sets are ", got, " and ", back, list(a), list(b));
    if (c == (double)a.size() && c == (double)b.size()) event("identical");
    if (c == 0) event("disjoint");
    if (large) event("large");
    state(mix(hdbl(got), s.n));
}

UNIT(entropy, 2500, 40000, "computed,better,same-set,reused,large") {
    Setup s(r, 2, 4);
    Draw d(r);
    std::vector<V> pool;
    bool large = idx % 25 == 0;
    for (int k = (int)(large ? r.range(100, 320) : r.range(4, 24)); k > 0; --k) pool.push_back(plain(grid(r.flip(0.7) ? onFront(r, s, r.flip() ? 0 : r.u01()) : d.vec(r, s.n))));
    std::vector<V> a, b;
    double share = r.u01();
    for (auto& v : pool) { if (r.flip(share)) { a.push_back(v); b.push_back(v); } else (r.flip() ? a : b).push_back(v); }
    if (a.empty() || b.empty()) a = b = pool;
    a = pareto(s, a); b = pareto(s, b);
    V lo = a[0], hi = a[0];
    for (auto& v : a) for (unsigned i = 0; i < s.n; ++i) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); }
    for (unsigned i = 0; i < s.n; ++i) if (hi[i] - lo[i] < 1e-2 * (1 + std::fabs(hi[i]))) return; // nothing to normalise with
    auto scaled = [&](std::vector<V> x) { for (auto& v : x) for (unsigned i = 0; i < s.n; ++i) v[i] = (v[i] - lo[i]) / (hi[i] - lo[i]); return x; };
    std::vector<V> all = a;
    all.insert(all.end(), b.begin(), b.end());
    std::vector<V> star = pareto(s, all), u = a;
    for (auto& v : star) { bool in = false; for (auto& w : a) in = in || s.same(v, w); if (!in) u.push_back(v); }
    u = scaled(u);
    auto na = scaled(a);
    double radius = (double)s.n / (double)star.size(), C = (double)u.size(), omega = 0, sum = 0;
    bool doubtful = false;
    auto around = [&](const std::vector<V>& x, const V& c) {
        double k = 0;
        for (auto& v : x) { double t = 0; for (unsigned i = 0; i < s.n; ++i) t += (v[i] - c[i]) * (v[i] - c[i]); t = std::sqrt(t); if (std::fabs(t - radius) < (large ? 1e-8 : 1e-4) * (1 + t)) doubtful = true; if (t < radius) k += 1; }
        return k;
    };
    for (auto& c : u) {
        double N = around(u, c), n = around(na, c);
        if (n > 0) { omega += 1 / N; sum += n / (N * C) * std::log(n / C); }
    }
    if (doubtful || omega < 1.05) return;
    double want = -sum / std::log(omega);
    moeoEntropyMetric<OV> m;
    if (r.flip()) { // used before, on the same sets moved and stretched or on one of them
        auto a0 = a, b0 = b;
        double k = r.real(0.3, 3), t = r.real(-4, 4);
        for (auto& v : a0) for (auto& x : v) x = x * k + t;
        if (r.flip()) for (auto& v : b0) for (auto& x : v) x = x * k - t;
        m(vectors(a0), vectors(b0));
        event("reused");
    }
    double got = m(vectors(a), vectors(b));
    CHECK(close(got, want, 1e-3, 1e-4), "entropy", "entropy (", s.dirs(), ") is ", got, ", expected ", want, list(a), list(b));
    double again = m(vectors(a), vectors(b));
    CHECK(close(got, again, 1e-9, 1e-9), "entropy-again", "the entropy metric gives ", got, ", then ", again, " for the same sets");
    event("computed");
    if (a == b) event("same-set");
    if (large) event("large");
    if (got > 0.5) event("better");
    state(hdbl(got));
}

namespace {
struct Taxi : public moeoObjSpaceDistance<RInd> {
    using moeoObjSpaceDistance<RInd>::operator();
    const double operator()(const OV& a, const OV& b) { double t = 0; for (size_t i = 0; i < a.size(); ++i) t += (double)(i + 1) * (a[i] - b[i]); return t; }
};
typedef moeoObjectiveVectorNormalizer<RInd> Norm;
}
UNIT(distance_metric, 1000, 20000, "normalised,raw") {
    Setup s(r, 1, 5);
    Pop p(r, s, 2, 10);
    V lo = p.v[0], hi = p.v[0];
    for (auto& v : p.v) for (unsigned i = 0; i < s.n; ++i) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); }
    std::vector<eoRealInterval> b;
    for (unsigned i = 0; i < s.n; ++i) { if (lo[i] == hi[i]) hi[i] += 2; b.push_back(eoRealInterval(lo[i], hi[i])); }
    double top = r.pick(std::vector<double>{1, 10, 100});
    Norm n(b, top);
    OV ref = vectors({r.pick(p.v)})[0];
    Taxi t;
    bool norm = r.flip();
    std::shared_ptr<moeoDistanceMetric<RInd>> m = norm ? std::make_shared<moeoDistanceMetric<RInd>>(t, ref, n) : std::make_shared<moeoDistanceMetric<RInd>>(t, ref);
    for (auto& v : p.v) {
        OV o = vectors({v})[0];
        double want = 0;
        for (unsigned i = 0; i < s.n; ++i) want += (i + 1) * (ref[i] - v[i]) * (norm ? top / (hi[i] - lo[i]) : 1);
        double got = (*m)(o);
        CHECK(close(got, want, 1e-8, 1e-8), "distance-metric", "distance of ", show(v), " to the reference ", str(ref), norm ? ", normalised," : "", " is ", got, ", expected ", want);
        state(hdbl(got));
    }
    event(norm ? "normalised" : "raw");
}

namespace {
// the numbers of a file, line by line
std::vector<V> numbers(const std::string& path, bool& there) {
    std::ifstream f(path);
    there = (bool)f;
    std::vector<V> out;
    std::string l;
    while (std::getline(f, l)) { std::istringstream i(l); V v; double x; while (i >> x) v.push_back(x); out.push_back(v); }
    return out;
}
bool near(const std::vector<V>& a, const std::vector<V>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t k = 0; k < a[i].size(); ++k) if (!close(a[i][k], b[i][k], 1e-4, 1e-4)) return false; }
    return true;
}
struct First : public moeoVectorVsVectorBinaryMetric<OV, double> { // tells its arguments apart
    double operator()(const std::vector<OV>& a, const std::vector<OV>& b) { double x = 0, y = 0; for (auto& v : a) x += v[0]; for (auto& v : b) y += v[0]; return x - 2 * y + 0.5 * (double)a.size() - 3 * (double)b.size(); }
};
}

UNIT(statistics, 1200, 20000, "average,best,ties,metric,saved,overwritten,numbered,tagged,long-name,generations,empty-pop,archive") {
    Setup s(r, 1, 5);
    Quiet q;
    moeoAverageObjVecStat<RInd> avg;
    moeoBestObjVecStat<RInd> best;
    First first;
    moeoBinaryMetricStat<RInd> stat(first, "metric", -77.0);
    eoPop<RInd> pop;
    std::string dir = cat(scratch(), "/m");
    mkdir(dir.c_str(), 0700);
    bool longName = idx % 7 == 0;
    std::string sub = dir;
    if (longName) { for (int k = 0; k < 5; ++k) { sub += "/" + std::string(220, (char)('a' + k)); mkdir(sub.c_str(), 0700); } event("long-name"); }
    std::string mfile = sub + "/metric", afile = sub + "/front";
    moeoBinaryMetricSavingUpdater<RInd> saver(first, pop, mfile);
    moeoUnboundedArchive<RInd> arch;
    moeoArchiveUpdater<RInd> up(arch, pop);
    bool count = r.flip(), tag = r.flip();
    int id = tag ? (int)r.range(0, 12) : -1;
    moeoArchiveObjectiveVectorSavingUpdater<RInd> fronts(arch, afile, count, id);
    std::vector<std::string> made;
    std::vector<V> lines, before;
    int gens = (int)r.range(1, 5);
    double last = -77;
    for (int g = 0; g < gens; ++g) {
        Pop p(r, s, 1, 20);
        if (r.flip(0.1)) p = Pop();
        pop = p.p;
        if (r.flip()) { eoPop<RInd> other = pop; pop.swap(other); } // other storage
        if (!p.v.empty()) {
            avg(pop); best(pop);
            for (unsigned i = 0; i < s.n; ++i) {
                double t = 0, b = p.v[0][i];
                for (auto& v : p.v) { t += v[i]; b = s.mins[i] ? std::min(b, v[i]) : std::max(b, v[i]); }
                CHECK(close(avg.value()[i], t / (double)p.v.size(), 1e-9, 1e-9), "average", "average of objective ", i, " is ", avg.value()[i], ", expected ", t / (double)p.v.size());
                CHECK(best.value()[i] == b, "best", "best of objective ", i, " (", s.dirs(), ") is ", best.value()[i], ", expected ", b);
                const RInd& who = best.bestindividuals(i);
                CHECK(who.objectiveVector()[i] == b, "best-individual", "generation ", g, ": the individual best on objective ", i, " has ", who.objectiveVector()[i], ", the best value is ", b);
            }
            bool threw = false;
            try { best.bestindividuals(s.n); } catch (const std::exception&) { threw = true; }
            CHECK(threw, "best-index", "the best individual of objective ", s.n, " of ", s.n, " is given");
            event("average"); event("best");
            if (p.ties) event("ties");
            double now = 0;
            if (g && !before.empty()) now = first(vectors(p.v), vectors(before));
            if (!before.empty()) { last = now; lines.push_back(V{(double)lines.size() + 1, now}); event("generations"); }
            before = p.v;
        } else event("empty-pop");
        stat(pop);
        CHECK(close(stat.value(), last, 1e-9, 1e-9), "metric-statistic", "generation ", g, ": the metric against the generation before is ", stat.value(), ", expected ", last);
        event("metric");
        saver();
        bool there;
        auto in = numbers(mfile, there);
        CHECK(there == !lines.empty() && near(in, lines), "metric-file", "generation ", g, ": the metric file has ", in.size(), " lines", list(in), ", expected ", lines.size(), list(lines));
        up();
        // the archive now holds the non-dominated ones of everything offered
        std::vector<V> have;
        for (auto& x : arch) have.push_back(plain(x.objectiveVector()));
        for (auto& v : p.v) { bool ok = false; for (auto& w : have) ok = ok || s.weak(w, v); CHECK(ok, "archive-updater", "generation ", g, ": ", show(v), " was not offered to the archive"); }
        event("archive");
        fronts();
        std::string name = afile;
        if (tag) name += "." + std::to_string(id);
        if (count) name += "." + std::to_string(g);
        in = numbers(name, there);
        CHECK(there, "front-file", "generation ", g, ": no file ", name.substr(name.size() - 20), " was written");
        CHECK(near(in, have), "front-file", "generation ", g, ": the saved front", list(in), " is not the archive", list(have));
        made.push_back(name);
        event("saved"); event(count ? "numbered" : "overwritten");
        if (tag) event("tagged");
        moeoConvertPopToObjectiveVectors<RInd> conv;
        auto o = conv(pop);
        CHECK(o.size() == p.v.size(), "converted", "a population of ", p.v.size(), " gave ", o.size(), " objective vectors");
        for (size_t k = 0; k < o.size(); ++k) CHECK(plain(o[k]) == p.v[k], "converted", "objective vector ", k, " of a population was altered");
    }
    state(mix(hvec(before.empty() ? V() : before[0]), gens));
    for (auto& n : made) std::remove(n.c_str());
    std::remove(mfile.c_str());
}
