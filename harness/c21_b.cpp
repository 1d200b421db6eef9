// C21: samplings.
#include "c21.h"
#include <sampling/moSampling.h>
#include <sampling/moAdaptiveWalkSampling.h>
#include <sampling/moAutocorrelationSampling.h>
#include <sampling/moDensityOfStatesSampling.h>
#include <sampling/moFDCsampling.h>
#include <sampling/moFitnessCloudSampling.h>
#include <sampling/moHillClimberSampling.h>
#include <sampling/moMHBestFitnessCloudSampling.h>
#include <sampling/moMHRndFitnessCloudSampling.h>
#include <sampling/moRndBestFitnessCloudSampling.h>
#include <sampling/moRndRndFitnessCloudSampling.h>
#include <sampling/moNeutralDegreeSampling.h>
#include <sampling/moNeutralWalkSampling.h>

// ------------------------------------------------------------------ samplings
template <class S> struct Draw : public eoInit<S> {
    Rand& r;
    unsigned n;
    bool perm;
    std::vector<G> drawn;
    Draw(Rand& x, unsigned m, bool p) : r(x), n(m), perm(p) {}
    void operator()(S& s) { s = make<S>(r, n, perm); s.invalidate(); drawn.push_back(vals(s)); }
};
// the trajectory as the checkpoint of the sampling shows it
template <class S> struct Path : public moStat<S, bool> {
    std::vector<G> at;
    std::vector<size_t> evals, draws;
    std::function<size_t()> count, drawn;
    Path() : moStat<S, bool>(true, "path") {}
    void note(S& s) { at.push_back(vals(s)); evals.push_back(count ? count() : 0); draws.push_back(drawn ? drawn() : 0); }
    void init(S& s) { at.clear(); evals.clear(); draws.clear(); note(s); }
    void operator()(S& s) { note(s); }
};
template <class N> void exports(moSampling<N>& sam, size_t cols, size_t rows, Rand& r, const char* what) {
    std::string f = std::string(scratch()) + "/sampling.txt";
    bool header = r.flip();
    const char* del = r.flip() ? " " : ";";
    sam.precision(15);
    sam.fileExport(f, del, false, header);
    std::ifstream in(f);
    std::string line;
    std::vector<std::string> lines;
    while (std::getline(in, line)) lines.push_back(line);
    in.close();
    CHECK(lines.size() == rows + header, "export-rows", what, ": ", lines.size(), " lines exported for ", rows, " samples");
    for (size_t c = 0; c < cols; ++c) {
        sam.fileExport((unsigned)c, f);
        std::ifstream i2(f);
        std::vector<std::string> col;
        while (std::getline(i2, line)) col.push_back(line);
        CHECK(col.size() == rows, "export-column", what, ": ", col.size(), " values exported in column ", c, " for ", rows, " samples");
        const std::vector<double>& v = sam.getValues((unsigned)c);
        for (size_t i = 0; i < rows; ++i) {
            if (!v.empty()) CHECK(close(atof(col[i].c_str()), v[i], 1e-13), "export-value", what, ": column ", c, " row ", i, " holds ", col[i], " instead of ", v[i]);
            // the row of the table holds the same text
            if (c == 0) CHECK(lines[i + header].compare(0, col[i].size(), col[i]) == 0, "export-table", what, ": row ", i, " is ", lines[i + header], " and its first value ", col[i]);
            if (c + 1 == cols) { std::string& l = lines[i + header]; CHECK(l.size() >= col[i].size() && l.compare(l.size() - col[i].size(), col[i].size(), col[i]) == 0, "export-table", what, ": row ", i, " is ", l, " and its last value ", col[i]); }
        }
    }
    bool thrown = false;
    try { sam.fileExport((unsigned)cols, f); } catch (std::exception&) { thrown = true; } catch (...) { thrown = true; }
    CHECK(thrown, "export-missing", what, ": a column that does not exist can be exported");
    event("exported");
}
template <class V> void same(const std::vector<double>& got, const V& want, const char* key, const char* what) {
    CHECK(got.size() == want.size(), "rows", what, ", ", key, ": ", got.size(), " samples instead of ", want.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK(close(got[i], (double)want[i], 1e-9, 1e-9 * (1 + std::fabs((double)want[i]))), key, what, ": sample ", i, " is ", got[i], " instead of ", want[i]);
}
template <class S, class N> void sample_one(Rand& r, moNeighborhood<N>& nh, Around hand, unsigned n, bool perm, int which, bool ordered) {
    Land land(r);
    if (which == 3 || which == 4) { if (r.flip()) { land.kind = 3; land.shift = 0; land.scale = 1; } }
    Full<S> full(land, false);
    moFullEvalByCopy<N> raw(full);
    moEvalCounter<N> ev(raw);
    Draw<S> draw(r, n, perm);
    Path<S> path;
    path.count = [&] { return (size_t)ev.value(); };
    path.drawn = [&] { return draw.drawn.size(); };
    unsigned m = (unsigned)(r.flip(0.2) ? 2 : r.range(2, 25));
    S ref = make<S>(r, n, perm);
    full(ref);
    G refG = vals(ref);
    eoHammingDistance<S> ham;
    Quiet quiet;
    bool mini = std::is_same<typename S::Fitness, MinF>::value;
    auto fits = [&] { std::vector<double> v; for (auto& g : path.at) v.push_back(land(g)); return v; };
    auto dists = [&](const G& o) { std::vector<double> v; for (auto& g : path.at) { double h = 0; for (size_t i = 0; i < g.size(); ++i) h += g[i] != o[i]; v.push_back(h); } return v; };
    auto bests = [&] { std::vector<double> v; for (auto& g : path.at) { Hand<S> h(land, hand, g); v.push_back(h.best); } return v; };
    auto drawnPath = [&](size_t from, const char* what) {
        std::vector<G> d(draw.drawn.begin() + from, draw.drawn.end());
        CHECK(path.at == d, "drawn", what, ": the solutions sampled are not those drawn: ", path.at.size(), " and ", d.size());
        CHECK(path.at.size() == m, "number", what, ": ", path.at.size(), " solutions sampled instead of ", m);
    };
    auto walk = [&](const char* what, bool neutral, bool still) {
        CHECK(path.at.size() == m + 1 || (neutral && path.at.size() <= m + 1), "steps", what, ": ", path.at.size() - 1, " steps instead of ", m);
        for (size_t i = 1; i < path.at.size(); ++i) {
            CHECK(contains(hand(path.at[i - 1]), path.at[i]) || (still && path.at[i] == path.at[i - 1]), "walk", what, ": step ", i, " goes from ", show(path.at[i - 1]), " to ", show(path.at[i]));
            if (neutral) CHECK(land(path.at[i]) == land(path.at[0]), "walk-neutral", what, ": step ", i, " changes the fitness");
        }
    };
    auto members = [&](const std::vector<double>& v, const char* what) {
        CHECK(v.size() == path.at.size(), "rows", what, ": ", v.size(), " samples instead of ", path.at.size());
        for (size_t i = 0; i < v.size(); ++i) { Hand<S> h(land, hand, path.at[i]); CHECK(std::binary_search(h.raw.begin(), h.raw.end(), v[i]), "neighbour", what, ": sample ", i, " has no neighbour of fitness ", v[i]); }
    };
    size_t from = 0;
    int runs = r.flip(0.3) ? 2 : 1;
    switch (which) {
    case 0: {
        moDensityOfStatesSampling<N> s(draw, full, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { from = draw.drawn.size(); s(); drawnPath(from, "density of states"); same(s.getValues(0), fits(), "fitness", "density of states"); }
        exports(s, 1, path.at.size(), r, "density of states");
        event("density");
        break;
    }
    case 1: {
        moFDCsampling<N> s(draw, full, ham, ref, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { from = draw.drawn.size(); s(); drawnPath(from, "fitness-distance"); same(s.getValues(0), fits(), "fitness", "fitness-distance"); same(s.getValues(1), dists(refG), "distance", "fitness-distance"); }
        exports(s, 2, path.at.size(), r, "fitness-distance");
        event("fdc");
        break;
    }
    case 2: {
        moAutocorrelationSampling<N> s(draw, nh, full, ev, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { s(); CHECK(path.at[0] == draw.drawn.back(), "walk-start", "random walk does not start at the solution drawn"); if (!ordered) walk("random walk", false, false); same(s.getValues(0), fits(), "fitness", "random walk"); }
        exports(s, 1, path.at.size(), r, "random walk");
        event("walk");
        break;
    }
    case 3: case 4: {
        std::shared_ptr<moSampling<N>> s;
        bool first = which == 4;
        const char* what = first ? "adaptive walks" : "hill climbs";
        if (first) s = std::make_shared<moAdaptiveWalkSampling<N>>(draw, nh, full, ev, m);
        else s = std::make_shared<moHillClimberSampling<N>>(draw, nh, full, ev, m);
        s->add(path, false);
        for (int k = 0; k < runs; ++k) {
            from = draw.drawn.size();
            size_t ev0 = ev.value();
            (*s)();
            CHECK(path.at.size() == m && draw.drawn.size() - from == m, "number", what, ": ", path.at.size(), " climbs from ", draw.drawn.size() - from, " solutions instead of ", m);
            std::vector<double> len, nev;
            bool exact = true;
            for (size_t i = 0; i < path.at.size(); ++i) {
                nev.push_back((double)(path.evals[i] - (i ? path.evals[i - 1] : ev0)));
                G g = draw.drawn[from + i];
                unsigned steps = 0;
                size_t evals = 0;
                for (;;) {
                    std::vector<G> nb = hand(g);
                    int take = -1;
                    double top = Q<S>(land, g);
                    bool tie = false;
                    for (size_t j = 0; j < nb.size(); ++j) {
                        ++evals;
                        double q = Q<S>(land, nb[j]);
                        if (q > top) { take = (int)j; top = q; tie = false; if (first) break; }
                        else if (q == top && take >= 0) tie = true;
                    }
                    if (tie || (first && !ordered)) exact = false;
                    if (take < 0) break;
                    g = nb[take];
                    ++steps;
                }
                len.push_back(steps);
                if (exact) {
                    CHECK(path.at[i] == g, "climb", what, ": climb ", i, " ends in ", show(path.at[i]), " instead of ", show(g));
                    if (first) CHECK(nev[i] == (double)evals, "climb-evaluations", what, ": climb ", i, " makes ", nev[i], " evaluations instead of ", evals);
                    event("climb_exact");
                }
                Hand<S> h(land, hand, path.at[i]);
                CHECK(h.sup == 0, "local-optimum", what, ": climb ", i, " ends next to ", h.sup, " better solutions");
                if (exact) CHECK(i < s->getValues(0).size() && s->getValues(0)[i] == steps, "length", what, ": climb ", i, " of ", steps, " steps is reported to have length ", i < s->getValues(0).size() ? s->getValues(0)[i] : -1);
            }
            CHECK(s->getValues(0).size() == m, "rows", what, ": ", s->getValues(0).size(), " lengths");
            if (first) same(s->getValues(1), nev, "evaluations", what);
            const std::vector<S>& sols = s->getSolutions(first ? 2 : 1);
            CHECK(sols.size() == m, "rows", what, ": ", sols.size(), " solutions");
            for (size_t i = 0; i < m; ++i) CHECK(vals(sols[i]) == path.at[i] && val(sols[i]) == land(path.at[i]), "solutions", what, ": solution ", i, " differs");
        }
        exports(*s, first ? 3 : 2, path.at.size(), r, what);
        if (first) { moAdaptiveWalkSampling<N>* d = 0; (void)d; }
        event(first ? "adaptive" : "climb");
        break;
    }
    case 5: {
        moMHBestFitnessCloudSampling<N> s(draw, nh, full, ev, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { s(); if (!ordered) walk("best cloud along Metropolis-Hastings", false, true); same(s.getValues(0), fits(), "fitness", "best cloud along Metropolis-Hastings"); same(s.getValues(1), bests(), "best", "best cloud along Metropolis-Hastings"); }
        exports(s, 2, path.at.size(), r, "MH best cloud");
        event("cloud_mh_best");
        break;
    }
    case 6: {
        moMHRndFitnessCloudSampling<N> s(draw, nh, full, ev, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { s(); if (!ordered) walk("random cloud along Metropolis-Hastings", false, true); same(s.getValues(0), fits(), "fitness", "random cloud along Metropolis-Hastings"); members(s.getValues(1), "random cloud along Metropolis-Hastings"); }
        exports(s, 2, path.at.size(), r, "MH random cloud");
        event("cloud_mh_random");
        break;
    }
    case 7: {
        moRndBestFitnessCloudSampling<N> s(draw, nh, full, ev, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { from = draw.drawn.size(); s(); drawnPath(from, "best cloud"); same(s.getValues(0), fits(), "fitness", "best cloud"); same(s.getValues(1), bests(), "best", "best cloud"); }
        exports(s, 2, path.at.size(), r, "best cloud");
        event("cloud_best");
        break;
    }
    case 8: {
        moRndRndFitnessCloudSampling<N> s(draw, nh, full, ev, m);
        s.add(path, false);
        for (int k = 0; k < runs; ++k) { from = draw.drawn.size(); s(); drawnPath(from, "random cloud"); same(s.getValues(0), fits(), "fitness", "random cloud"); members(s.getValues(1), "random cloud"); }
        exports(s, 2, path.at.size(), r, "random cloud");
        event("cloud_random");
        break;
    }
    case 9: {
        Rev<N> rev;
        Flat<N> flat;
        bool other = r.flip(0.3);
        std::shared_ptr<moNeutralDegreeSampling<N>> s;
        if (other) s = std::make_shared<moNeutralDegreeSampling<N>>(draw, nh, full, ev, rev, flat, m);
        else s = std::make_shared<moNeutralDegreeSampling<N>>(draw, nh, full, ev, m);
        s->add(path, false);
        for (int k = 0; k < runs; ++k) {
            from = draw.drawn.size();
            (*s)();
            drawnPath(from, "neutral degrees");
            same(s->getValues(0), fits(), "fitness", "neutral degrees");
            std::vector<double> nd;
            for (auto& g : path.at) { Hand<S> h(land, hand, g); nd.push_back(other ? h.n : h.eq); }
            same(s->getValues(1), nd, "neutral-degree", "neutral degrees");
        }
        exports(*s, 2, path.at.size(), r, "neutral degrees");
        event("neutral_degree");
        break;
    }
    default: {
        bool given = r.flip();
        std::shared_ptr<moNeutralWalkSampling<N>> s;
        if (given) s = std::make_shared<moNeutralWalkSampling<N>>(ref, nh, full, ev, ham, m);
        else s = std::make_shared<moNeutralWalkSampling<N>>(draw, nh, full, ev, m);
        s->add(path, false);
        for (int k = 0; k < runs; ++k) {
            (*s)();
            CHECK(path.at[0] == (given ? refG : draw.drawn.back()), "walk-start", "neutral walk starts at another solution");
            walk("neutral walk", true, true);
            const std::vector<S>& sols = s->getSolutions(0);
            CHECK(sols.size() == path.at.size(), "rows", "neutral walk: ", sols.size(), " solutions for ", path.at.size());
            for (size_t i = 0; i < sols.size(); ++i) CHECK(vals(sols[i]) == path.at[i], "solutions", "neutral walk: solution ", i, " differs");
            unsigned c = 1;
            if (given) same(s->getValues(c++), dists(refG), "distance", "neutral walk");
            std::vector<std::vector<double>> w(11);
            for (auto& g : path.at) {
                Hand<S> h(land, hand, g);
                double row[] = {h.mean, h.sd, h.worst, h.q1, h.q2, h.q3, h.best, (double)h.n, (double)h.inf, (double)h.eq, (double)h.sup};
                if (h.sd < 1e-6 * (1 + h.mag)) row[1] = 0;
                for (int i = 0; i < 11; ++i) w[i].push_back(row[i]);
            }
            const char* names[] = {"mean", "deviation", "worst", "q1", "median", "q3", "best", "size", "worse", "neutral", "better"};
            for (int i = 0; i < 11; ++i) same(s->getValues(c + i), w[i], names[i], "neutral walk");
        }
        exports(*s, given ? 13 : 12, path.at.size(), r, "neutral walk");
        event("neutral_walk");
    }
    }
    (void)mini;
    state(mix((u64)which, hvec(path.at.empty() ? G() : path.at.back(), path.at.size())));
}
#define SAMPLED "density,fdc,walk,adaptive,climb,climb_exact,cloud_mh_best,cloud_mh_random,cloud_best,cloud_random,neutral_degree,neutral_walk,exported"
UNIT(samplings_bits, 660, 13200, SAMPLED) {
    unsigned n = (unsigned)r.range(2, 12);
    int which = (int)(idx % 11);
    typedef moBitNeighbor<double> N;
    if (idx % 3 == 0) { moRndWithReplNeighborhood<N> rn(n); if (which == 2 || which == 6) { sample_one<Bit, N>(r, rn, flips, n, false, which, false); return; } }
    if (r.flip()) { moOrderNeighborhood<N> nh(n); sample_one<Bit, N>(r, nh, flips, n, false, which, true); }
    else { moRndWithoutReplNeighborhood<N> nh(n); sample_one<Bit, N>(r, nh, flips, n, false, which, false); }
}
UNIT(samplings_bits_min, 660, 13200, SAMPLED) {
    unsigned n = (unsigned)r.range(2, 12);
    int which = (int)(idx % 11);
    typedef moBitNeighbor<MinF> N;
    if (r.flip()) { moOrderNeighborhood<N> nh(n); sample_one<BitMin, N>(r, nh, flips, n, false, which, true); }
    else { moRndWithoutReplNeighborhood<N> nh(n); sample_one<BitMin, N>(r, nh, flips, n, false, which, false); }
}
UNIT(samplings_perms, 330, 6600, SAMPLED) {
    unsigned n = (unsigned)r.range(3, 7);
    int which = (int)(idx % 11);
    typedef moIndexedSwapNeighbor<Perm> N;
    if (which == 4 || r.flip()) { moOrderNeighborhood<N> nh(n * (n - 1) / 2); Around a = swaps; sample_one<Perm, N>(r, nh, a, n, true, which == 4 ? 3 : which, true); if (which == 4) { moRndWithoutReplNeighborhood<N> n2(n * (n - 1) / 2); sample_one<Perm, N>(r, n2, a, n, true, 4, false); } }
    else { moRndWithoutReplNeighborhood<N> nh(n * (n - 1) / 2); sample_one<Perm, N>(r, nh, swaps, n, true, which, false); }
}

