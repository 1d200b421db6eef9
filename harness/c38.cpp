// C38: the covariance matrix adaptation strategy follows its published update.
//
// The state is opaque, so its law is read off its samples: with the generator of the library seeded alike, a state and a
// state of known law (identity axes) draw the same standard normal vector z, and n of these give mean + A z, hence A.
#include "c35.h"
#include <fstream>
#include <Eigen/Dense>
#include <es/CMAState.h>
#include <es/CMAParams.h>
#include <es/eoCMAInit.h>
#include <es/eoCMABreed.h>
#include <es/matrices.h>
#include <es/eig.h>
using namespace mon;
using eo::CMAParams; using eo::CMAState;
typedef std::vector<double> Vec;
typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd EV;

// --- strategy parameters ------------------------------------------------------------------------------------------------
struct Expected { unsigned n, maxgen, lambda, mu; Vec w, minS, initS; double mueff, ccumsig, ccumcov, ccov, damp; };
static void derive(Expected& e) {
    double s = 0, q = 0;
    for (double x : e.w) s += x, q += x * x;
    e.mueff = s * s / q;
    for (double& x : e.w) x /= s;
    double n = e.n;
    e.ccumsig = (e.mueff + 2) / (n + e.mueff + 3);
    e.ccumcov = 4 / (n + 4);
    double t1 = 2 / ((n + 1.4142) * (n + 1.4142)), t2 = std::min(1.0, (2 * e.mueff - 1) / ((n + 2) * (n + 2) + e.mueff));
    e.ccov = t1 / e.mueff + (1 - 1 / e.mueff) * t2;
    e.damp = 1 + std::max(0.3, 1 - n / e.maxgen) * (1 + 2 * std::max(0.0, std::sqrt((e.mueff - 1) / (n + 1)) - 1)) / e.ccumsig;
}
static Expected expected(unsigned n, unsigned maxgen) {
    Expected e; e.n = n; e.maxgen = maxgen; e.lambda = 4 + (unsigned)(3 * std::log((double)n)); e.mu = e.lambda / 2;
    for (unsigned i = 0; i < e.mu; ++i) e.w.push_back(std::log(e.mu + 1.0) - std::log(i + 1.0));
    e.minS.assign(n, 0.0); e.initS.assign(n, 0.3);
    derive(e);
    return e;
}
static void compare(const CMAParams& p, const Expected& e, const std::string& what) {
    CHECK(p.n == e.n && p.maxgen == e.maxgen, "dimension", what, ": dimension ", p.n, " and ", p.maxgen, " generations");
    CHECK(p.lambda == e.lambda && p.mu == e.mu, "sizes", what, ": lambda ", p.lambda, " mu ", p.mu, " expected ", e.lambda, " ", e.mu);
    CHECK(p.weights.size() == e.mu, "weights", what, ": ", p.weights.size(), " weights for mu ", e.mu);
    if (p.weights.size() == e.mu)
        for (unsigned i = 0; i < e.mu; ++i) CHECK(close(p.weights[i], e.w[i], 1e-9, 1e-12), "weights", what, ": weight ", i, " is ", p.weights[i], " expected ", e.w[i]);
    CHECK(close(p.mueff, e.mueff, 1e-9, 0) && close(p.mucov, e.mueff, 1e-9, 0), "mueff", what, ": ", p.mueff, " ", p.mucov, " expected ", e.mueff);
    CHECK(close(p.ccumsig, e.ccumsig, 1e-9, 0), "ccumsig", what, ": ", p.ccumsig, " expected ", e.ccumsig);
    CHECK(close(p.ccumcov, e.ccumcov, 1e-9, 0), "ccumcov", what, ": ", p.ccumcov, " expected ", e.ccumcov);
    CHECK(close(p.ccov, e.ccov, 1e-9, 0), "ccov", what, ": ", p.ccov, " expected ", e.ccov);
    CHECK(close(p.damp, e.damp, 1e-9, 0), "damp", what, ": ", p.damp, " expected ", e.damp);
    CHECK(p.minStdevs.size() == e.n && p.initialStdevs.size() == e.n, "stdevs", what, ": ", p.minStdevs.size(), " and ", p.initialStdevs.size(), " deviations");
    if (p.minStdevs.size() == e.n && p.initialStdevs.size() == e.n)
        for (unsigned i = 0; i < e.n; ++i)
            CHECK(p.minStdevs[i] == e.minS[i] && p.initialStdevs[i] == e.initS[i], "stdevs", what, ": axis ", i, " has ", p.minStdevs[i], " and ", p.initialStdevs[i], " expected ", e.minS[i], " and ", e.initS[i]);
}
static Vec spread(Rand& r, unsigned n, Line& l, const char* name, double def, bool zero) {
    Vec out(n, def);
    if (r.flip()) return out;
    Vec g(1 + r.below(n + 2));
    for (double& x : g) x = zero && r.flip(0.3) ? 0.0 : (double)r.range(1, 64) / 16;
    std::ostringstream o; o << g.size();
    for (double x : g) o << "," << x;
    l.set(name, o.str());
    if (g.size() > n) g.resize(n);
    for (unsigned i = 0; i < n; ++i) out[i] = g[std::min<size_t>(i, g.size() - 1)];
    return out;
}
// parameters given on a command line; the expectation is filled in beside
static CMAParams given(Rand& r, Expected& e, unsigned n, std::string& what) {
    Line l; unsigned maxgen = 1000;
    bool byLine = r.flip();
    if (byLine) l.set("dimensionality", n);
    if (r.flip()) l.set("max-gen", maxgen = (unsigned)r.range(1, 5000));
    e = expected(n, maxgen);
    if (r.flip()) { e.lambda = (unsigned)r.range(2, 40); l.set("lambda", e.lambda); }
    if (r.flip()) { e.mu = (unsigned)r.range(1, 30); l.set("mu", e.mu); }
    if (e.mu >= e.lambda) e.mu = e.lambda / 2;
    int type = (int)r.below(4);
    if (type < 3) l.set("weighting", type);
    e.w.clear();
    for (unsigned i = 0; i < e.mu; ++i) e.w.push_back(type == 1 ? 1.0 : type == 2 ? (double)(e.mu - i) : std::log(e.mu + 1.0) - std::log(i + 1.0));
    derive(e);
    e.minS = spread(r, n, l, "min-stdev", 0.0, true);
    e.initS = spread(r, n, l, "init-stdev", 0.3, false);
    what = l.str();
    eoh::Quiet q;
    return CMAParams(l.go(), byLine ? (r.flip() ? 0 : n) : n);
}
UNIT(parameters, 1500, 8000, "default,line") {
    unsigned n = (unsigned)r.size(1, 60);
    if (r.flip(0.3)) {
        CMAParams p; unsigned g = (unsigned)r.range(1, 3000);
        p.defaults(n, g);
        compare(p, expected(n, g), "defaults");
        if (r.flip()) { unsigned m = (unsigned)r.size(1, 60); p.defaults(m, g); compare(p, expected(m, g), "defaults again"); }
        event("default");
    } else {
        Expected e; std::string what;
        CMAParams p = given(r, e, n, what);
        compare(p, e, what); event("line");
        state(mix(hvec(e.w), mix(e.lambda, n)));
    }
}

// --- the law held by a state --------------------------------------------------------------------------------------------
struct Law { EV mean; Mat cov; };
static Law law(const CMAState& s, unsigned n, u64 seed) {
    CMAParams id; id.defaults(n, 1000);
    id.initialStdevs = 1.0;
    CMAState unit(id, Vec(n, 0.0), 1.0);
    Mat Z(n + 1, n + 1), X(n + 1, n);
    for (unsigned k = 0; k <= n; ++k) {
        Vec z, x;
        eo::rng.reseed((uint32_t)mix(seed, k)); eo::rng.clearCache(); unit.sample(z);
        eo::rng.reseed((uint32_t)mix(seed, k)); eo::rng.clearCache(); s.sample(x);
        CHECK(x.size() == n && z.size() == n, "dimension", "sample of ", x.size(), " in dimension ", n);
        for (unsigned i = 0; i < n; ++i) { Z(k, i) = z[i]; X(k, i) = x[i]; }
        Z(k, n) = 1;
    }
    Mat A = Z.fullPivLu().solve(X); // rows: columns of the factor, then the mean
    Law l; l.mean = A.row(n).transpose();
    Mat F = A.topRows(n).transpose();
    l.cov = F * F.transpose();
    return l;
}
// --- the published update ------------------------------------------------------------------------------------------------
struct Model {
    Expected e; EV mean, pc, ps, d; Mat C, B; double sigma; unsigned gen; double hist[3]; bool unsure;
    Model(const Expected& e_, const Vec& m, double s) : e(e_), sigma(s), gen(0), unsure(false) {
        unsigned n = e.n; mean = Eigen::Map<const EV>(m.data(), n); pc = ps = EV::Zero(n); B = Mat::Identity(n, n); d = EV(n); C = Mat::Zero(n, n);
        double t = 0;
        for (double x : e.initS) t += x * x;
        for (unsigned i = 0; i < n; ++i) { d(i) = e.initS[i] * std::sqrt(n / t); C(i, i) = d(i) * d(i); }
        hist[0] = hist[1] = hist[2] = 0;
    }
    void learn(const std::vector<const Vec*>& pop, double best, double worst) {
        double n = e.n;
        hist[gen % 3] = best;
        EV old = mean; mean = EV::Zero(e.n);
        for (unsigned j = 0; j < pop.size(); ++j) mean += e.w[j] * Eigen::Map<const EV>(pop[j]->data(), e.n);
        EV y = std::sqrt(e.mueff) * (mean - old) / sigma;
        ps = (1 - e.ccumsig) * ps + std::sqrt(e.ccumsig * (2 - e.ccumsig)) * (B * (B.transpose() * y).cwiseQuotient(d));
        double pp = ps.squaredNorm(), chi = std::sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n));
        double ratio = std::sqrt(pp) / std::sqrt(1 - std::pow(1 - e.ccumsig, 2.0 * (gen + 1))) / chi, lim = 1.5 + 1 / (n - 0.5);
        if (std::fabs(ratio - lim) < 1e-7 * lim) unsure = true;
        bool hsig = ratio < lim;
        event(hsig ? "path" : "stalled_path");
        pc = (1 - e.ccumcov) * pc;
        if (hsig) pc += std::sqrt(e.ccumcov * (2 - e.ccumcov)) * y;
        if (gen >= 3) {
            double dir = best < worst ? -1 : 1, now = dir * hist[gen % 3];
            bool worse = best == worst || (now < dir * hist[(gen - 1) % 3] && now < dir * hist[(gen - 2) % 3]);
            double lim2 = 1.5 + 10 * std::sqrt(2 / n);
            if (std::fabs(pp / n - lim2) < 1e-7 * lim2) unsure = true;
            if (worse && pp / n > lim2) { double f = std::sqrt((1 + std::max(0.0, std::log(pp / n))) * n / pp); ps *= f; pp *= f * f; event("momentum_removed"); }
        }
        Mat R = Mat::Zero(e.n, e.n);
        for (unsigned k = 0; k < pop.size(); ++k) { EV v = (Eigen::Map<const EV>(pop[k]->data(), e.n) - old) / sigma; R += e.w[k] * v * v.transpose(); }
        C = (1 - e.ccov) * C + e.ccov / e.mueff * (pc * pc.transpose() + (hsig ? 0.0 : 1.0) * e.ccumcov * (2 - e.ccumcov) * C) + e.ccov * (1 - 1 / e.mueff) * R;
        sigma *= std::exp((std::sqrt(pp) / chi - 1) / e.damp);
        // minimal deviations and numerical stalling
        for (unsigned i = 0; i < e.n; ++i) {
            double s = sigma * std::sqrt(C(i, i));
            if (e.minS[i] > 0 && std::fabs(s - e.minS[i]) < 1e-9 * s) unsure = true;
            if (s < e.minS[i]) { sigma *= std::exp(0.05 + 1 / e.damp); event("min_stdev"); break; }
        }
        if (best == worst) { sigma *= std::exp(0.2 + 1 / e.damp); event("flat"); }
        for (unsigned a = 0; a < e.n; ++a) {
            bool moves = false;
            for (unsigned c = 0; c < e.n; ++c) if (mean(c) != mean(c) + 0.1 * sigma * d(a) * B(c, a)) moves = true;
            if (!moves) { sigma *= std::exp(0.2 + 1 / e.damp); event("stuck_axis"); }
        }
        bool issue = false;
        for (unsigned i = 0; i < e.n; ++i) if (mean(i) == mean(i) + 0.2 * sigma * std::sqrt(C(i, i))) { C(i, i) *= 1 + e.ccov; issue = true; }
        if (issue) sigma *= std::exp(0.05 + 1 / e.damp);
        ++gen;
    }
    void axes() {
        Eigen::SelfAdjointEigenSolver<Mat> s(C);
        d = s.eigenvalues(); B = s.eigenvectors();
        double mn = d.minCoeff(), mx = d.maxCoeff();
        if (mx * std::numeric_limits<double>::epsilon() * 100 > mn) unsure = true; // the limit of conditioning: rounding decides
        for (unsigned i = 0; i < e.n; ++i) d(i) = std::sqrt(std::max(d(i), 0.0));
    }
    Mat cov() const { Mat F = sigma * B * d.asDiagonal(); return F * F.transpose(); }
};
static bool agree(const Law& l, const Model& m, const char* when, unsigned g) {
    double sd = std::sqrt(m.cov().diagonal().maxCoeff()), scale = m.mean.cwiseAbs().maxCoeff();
    for (unsigned i = 0; i < m.e.n; ++i)
        if (!(std::fabs(l.mean(i) - m.mean(i)) <= 1e-6 * sd + 1e-9 * scale)) { fail("mean", cat(when, " ", g, ": mean of axis ", i, " is ", l.mean(i), " expected ", m.mean(i))); return false; }
    Mat c = m.cov(); double tol = 1e-5 * c.diagonal().maxCoeff() + 1e-7 * sd * scale;
    for (unsigned i = 0; i < m.e.n; ++i) for (unsigned j = 0; j < m.e.n; ++j)
        if (!(std::fabs(l.cov(i, j) - c(i, j)) <= tol)) { fail("covariance", cat(when, " ", g, ": covariance of axes ", i, ",", j, " is ", l.cov(i, j), " expected ", c(i, j), " (dimension ", m.e.n, ", sigma ", m.sigma, ")")); return false; }
    return true;
}
static double objective(int kind, const Vec& x) {
    double s = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        if (kind == 0) s += x[i] * x[i];
        else if (kind == 1) s += std::pow(100.0, (double)i / std::max<size_t>(1, x.size() - 1)) * x[i] * x[i];
        else if (kind == 2) s += x[i];
        else if (kind == 3) s += std::floor(x[i] * x[i]);
    }
    return s;
}
UNIT(adaptation, 4000, 10000, "update,path,stalled_path,momentum_removed,min_stdev,flat,skipped_axes,copied") {
    unsigned n = (unsigned)r.size(1, 12);
    Expected e; std::string what;
    CMAParams p = given(r, e, n, what);
    if (p.weights.size() != e.mu) return; // reported by the other unit
    Vec m(n);
    for (double& x : m) x = r.real(-3, 3);
    double sigma = r.flip() ? 1.0 : std::pow(10.0, r.real(-2, 1));
    CMAState first(p, m, sigma); Model mod(e, m, sigma);
    std::vector<CMAState> hold(1, first);
    if (!agree(law(hold[0], n, r.next()), mod, "at start", 0)) return;
    unsigned gens = idx % 100 == 7 ? 150 : (unsigned)r.range(1, 12);
    int kind = (int)r.below(6); bool maximise = r.flip();
    for (unsigned g = 0; g < gens; ++g) {
        eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
        std::vector<std::pair<double, Vec>> pop(e.mu);
        double jump = r.flip(0.15) ? r.real(1, 6) : 0;
        for (auto& x : pop) {
            hold[0].sample(x.second);
            // points the strategy did not draw are legal too: a far cloud makes long paths
            for (double& v : x.second) v += jump * mod.sigma;
            x.first = kind == 4 ? r.real(0, 1) : kind == 5 ? 3.0 : objective(kind, x.second);
            if (maximise) x.first = -x.first;
        }
        std::stable_sort(pop.begin(), pop.end(), [&](auto& a, auto& b) { return maximise ? a.first > b.first : a.first < b.first; });
        std::vector<const Vec*> ptr;
        for (auto& x : pop) ptr.push_back(&x.second);
        std::vector<Vec> before;
        for (auto& x : pop) before.push_back(x.second);
        if (r.flip(0.2)) { // a copy evolves on its own; the original is left as it was
            CMAState other(hold[0]);
            Law was = law(hold[0], n, 5);
            other.reestimate(ptr, pop[0].first, pop.back().first); other.updateEigenSystem(10);
            Law is = law(hold[0], n, 5);
            CHECK(was.cov == is.cov && was.mean == is.mean, "copy-shared", "adapting a copy changed the original");
            event("copied");
        }
        if (r.flip(0.2)) { // assigned over a state that has a history of its own
            CMAState t(p, m, 2 * sigma);
            for (size_t k = r.size(0, 3); k > 0; --k) { t.reestimate(ptr, pop[0].first, pop.back().first); t.updateEigenSystem(10); }
            t = hold[0]; std::vector<CMAState> h2(1, t); hold.swap(h2); }
        hold[0].reestimate(ptr, pop[0].first, pop.back().first);
        mod.learn(ptr, pop[0].first, pop.back().first);
        for (size_t k = 0; k < pop.size(); ++k) CHECK(pop[k].second == before[k], "parents-changed", "re-estimation changed a parent");
        if (r.flip(0.25)) event("skipped_axes");
        else {
            CHECK(hold[0].updateEigenSystem(r.flip() ? 1 : 10), "eigen", "no eigen system found, ", what);
            mod.axes();
        }
        if (mod.unsure || mod.sigma > 1e60 || mod.sigma < 1e-60) { event("unsure"); return; }
        event("update"); state(hvec(Vec(mod.mean.data(), mod.mean.data() + n)));
        if (!agree(law(hold[0], n, r.next()), mod, "after update", g)) return;
    }
}
// coordinates so large that steps vanish in rounding: the step size, seen on the other coordinates, grows
UNIT(stuck, 800, 4000, "stuck_axis,update") {
    unsigned n = (unsigned)r.range(2, 6);
    Line l; std::ostringstream o; o << n;
    Vec init;
    for (unsigned i = 0; i < n; ++i) { init.push_back((double)(i + 1) / 4); o << "," << init[i]; }
    l.set("dimensionality", n).set("lambda", 4).set("mu", 1).set("init-stdev", o.str());
    Expected e = expected(n, 1000); e.lambda = 4; e.mu = 1; e.w.assign(1, 1.0); derive(e); e.initS = init;
    CMAParams p(l.go());
    Vec m(n); std::vector<bool> big(n);
    for (unsigned i = 0; i < n; ++i) { big[i] = i != idx % n && r.flip(0.6); m[i] = big[i] ? (r.flip() ? 1e30 : -1e30) : r.real(900, 1000); }
    CMAState s(p, m, 1.0); Model mod(e, m, 1.0);
    for (unsigned g = 0; g < 4; ++g) {
        Vec x = m;
        for (unsigned i = 0; i < n; ++i) if (!big[i]) x[i] = mod.mean(i) + mod.sigma * r.real(-1, 1);
        std::vector<const Vec*> ptr(1, &x);
        s.reestimate(ptr, 1.0, 2.0); mod.learn(ptr, 1.0, 2.0);
        CHECK(s.updateEigenSystem(), "eigen", "no eigen system found");
        mod.axes();
        if (mod.unsure) return;
        Law is = law(s, n, r.next()); Mat c = mod.cov();
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j)
            if (!big[i] && !big[j]) CHECK(std::fabs(is.cov(i, j) - c(i, j)) <= 1e-5 * std::sqrt(c(i, i) * c(j, j)), "covariance", "axes ", i, ",", j, " of ", n, ": ", is.cov(i, j), " expected ", c(i, j), " at generation ", g);
        event("update"); state(hdbl(mod.sigma));
    }
}
UNIT(eigen, 2400, 12000, "decomposed,singular,large,starved") {
    unsigned n = idx % 40 == 0 ? 40 + (unsigned)r.below(40) : (unsigned)r.size(1, 15);
    if (n >= 40) event("large");
    Mat S = Mat::Zero(n, n);
    int kind = (int)r.below(5);
    if (kind == 4 && n > 1) event("singular");
    unsigned rank = kind == 4 ? std::max(1u, n / 2) : n;
    if (kind == 0) for (unsigned i = 0; i < n; ++i) S(i, i) = r.real(0.1, 5);
    else if (kind == 1) S = 2.5 * Mat::Identity(n, n);
    else {
        Mat G(n, rank);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < rank; ++j) G(i, j) = r.real(-1, 1) * (kind == 3 ? std::pow(10.0, r.real(-4, 4)) : 1);
        S = G * G.transpose();
    }
    S = ((S + S.transpose()) / 2).eval();
    lower_triangular_matrix C(n);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) C[i][j] = S(i, j);
    std::valarray<double> d(0.0, n); square_matrix Q(n);
    if (r.flip(0.3)) { C.resize(n); Q.resize(n); }
    bool starve = kind == 2 && n >= 6 && r.flip();
    int budget = starve ? (int)r.range(1, 3) : 0;
    int it = eo::eig((int)n, C, d, Q, budget);
    double scale = S.cwiseAbs().maxCoeff();
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) CHECK(C[i][j] == S(i, j), "input-changed", "the matrix was changed");
    Mat B(n, n); EV D(n);
    for (unsigned i = 0; i < n; ++i) { D(i) = d[i]; for (unsigned j = 0; j < n; ++j) B(i, j) = Q[i][j]; }
    double err = (B * D.asDiagonal() * B.transpose() - S).cwiseAbs().maxCoeff(), ort = (B.transpose() * B - Mat::Identity(n, n)).cwiseAbs().maxCoeff();
    if (starve) {
        event("starved");
        // too few iterations: either it was enough after all, or the caller is told that the limit was reached
        if (it < budget) CHECK(err <= 1e-9 * scale * n, "unconverged", it, " iterations of ", budget, " reported but B D B' differs by ", err, " from a matrix of size ", n);
        return;
    }
    CHECK(it < 30 * (int)n || n == 1, "iterations", it, " iterations for dimension ", n);
    CHECK(err <= 1e-10 * scale * n, "not-eigen", "B D B' differs by ", err, ", dimension ", n, " kind ", kind);
    CHECK(ort <= 1e-10 * n, "not-orthogonal", "B'B differs by ", ort, " from the identity, dimension ", n);
    event("decomposed"); state(hvec(Vec(D.data(), D.data() + n)));
}
template <class F> static void breeding(Rand& r) {
    typedef eoVector<F, double> Indi;
    unsigned n = (unsigned)r.size(1, 8);
    Expected e; std::string what;
    CMAParams p = given(r, e, n, what);
    if (p.weights.size() != e.mu) return;
    Vec m(n);
    for (double& x : m) x = r.real(-3, 3);
    CMAState s(p, m, 0.7); Model mod(e, m, 0.7);
    eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
    eoCMAInit<F> init(s); eoPop<Indi> pop(e.mu, init), off;
    eoCMABreed<F> breed(s, p.lambda);
    int kind = (int)r.below(4);
    for (unsigned g = 0; g < 4; ++g) {
        for (auto& x : pop) {
            CHECK(x.size() == n, "dimension", "individual of ", x.size(), " in dimension ", n);
            CHECK(x.invalid() || g, "init-valid", "an initialised individual claims to be evaluated");
            x.fitness(objective(kind, x));
        }
        std::vector<std::pair<double, Vec>> sorted;
        for (auto& x : pop) sorted.push_back({(double)x.fitness(), (Vec)x});
        std::stable_sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return eoh::good(F(a.first)) > eoh::good(F(b.first)); });
        bool ties = false;
        for (size_t i = 1; i < sorted.size(); ++i) if (sorted[i].first == sorted[i - 1].first) ties = true;
        eoPop<Indi> before = pop;
        if (r.flip()) off.clear(); // otherwise the offspring of the generation before are overwritten
        eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
        { eoh::Quiet q; breed(pop, off); }
        CHECK(off.size() == e.lambda, "offspring-number", off.size(), " offspring, lambda is ", e.lambda);
        bool same = pop.size() == before.size();
        for (size_t i = 0; same && i < pop.size(); ++i) same = (Vec&)pop[i] == (Vec&)before[i] && pop[i].fitness() == before[i].fitness();
        CHECK(same, "parents-changed", "breeding changed its parents");
        for (auto& x : off) { CHECK(x.size() == n, "dimension", "offspring of ", x.size()); CHECK(x.invalid(), "offspring-valid", "an offspring claims to be evaluated"); }
        event("bred");
        if (ties) return;
        std::vector<const Vec*> ptr;
        for (auto& x : sorted) ptr.push_back(&x.second);
        mod.learn(ptr, sorted[0].first, sorted.back().first); mod.axes();
        if (mod.unsure) return;
        if (!agree(law(s, n, r.next()), mod, "after breeding", g)) return;
        event("followed"); state(hvec((Vec&)off[0]));
        eoPop<Indi> next;
        for (auto& x : off) x.fitness(objective(kind, x));
        off.sort();
        for (unsigned i = 0; i < e.mu; ++i) next.push_back(off[i]);
        next.shuffle(); pop = next;
    }
}
UNIT(breed_min, 1200, 4000, "bred,followed") { breeding<eoMinimizingFitness>(r); }
UNIT(breed_max, 1200, 4000, "bred,followed") { breeding<eoMaximizingFitness>(r); }
