// C31: benchmark problems against their published definitions
#include "eoh.h"
#include <es.h>
#include <mo>
#include <fstream>
using namespace std;
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/bbRoyalRoadEval.h>
#include <eval/longKPathEval.h>
#include <eval/maxSATeval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/nkpLandscapesEval.h>
#include <eval/nkqLandscapesEval.h>
#include <eval/qapEval.h>
#include <eval/queenEval.h>
#include <eval/ubqpEval.h>
#include <DTLZ.h>
#include <DTLZ1Eval.h>
#include <DTLZ2Eval.h>
#include <DTLZ3Eval.h>
#include <DTLZ4Eval.h>
#include <DTLZ5Eval.h>
#include <DTLZ6Eval.h>
#include <DTLZ7Eval.h>
using namespace mon;

namespace {

typedef eoBit<double> B;

// bit strings of every density, all-zero and all-one included
template <class S> void fill(Rand& r, S& s, size_t n)
{
    s.resize(n);
    double d = r.flip(.2) ? 0. : r.flip(.25) ? 1. : r.flip(.3) ? .97 : r.u01();
    for (size_t i = 0; i < n; ++i) s[i] = r.u01() < d;
    s.invalidate();
}

template <class S> string bits(const S& s)
{
    string o;
    for (size_t i = 0; i < s.size() && i < 200; ++i) o += s[i] ? '1' : '0';
    return o;
}

template <class S> uint64_t hb(const S& s) { return hstr(bits(s)); }

string path(const char* name) { return string(scratch()) + "/" + name; }

void seedlib(Rand& r) { eo::rng.reseed((uint32_t)r.next()); }

} // namespace

UNIT(ones, 400, 6000, "onemax,royal,partial-block,full-block")
{
    B s;
    size_t n = r.flip(.02) ? 66000 + r.below(3000) : r.size(0, 300);
    fill(r, s, n);
    oneMaxEval<B> om;
    B before = s;
    om(s);
    size_t c = 0;
    for (bool b : before) c += b;
    CHECK(!s.invalid() && s.fitness() == (double)c, "onemax", "length ", n, ": fitness ", s.fitness(), " for ", c, " ones");
    CHECK((vector<bool>&)s == (vector<bool>&)before, "onemax-changed", "evaluation changed the solution");
    event("onemax");

    unsigned k = 1 + r.below(r.flip() ? 4 : 20);
    if (r.flip(.1)) k = n + r.below(3);
    if (!k) k = 1;
    if (r.flip(.5) && k <= n)
        for (size_t b = r.below(n / k); r.flip(.7) && (b + 1) * k <= n; ++b)
            for (unsigned j = 0; j < k; ++j) s[b * k + j] = true;
    RoyalRoadEval<B> rr(k);
    s.invalidate();
    rr(s);
    unsigned full = 0;
    for (size_t b = 0; (b + 1) * k <= n; ++b) {
        bool ok = true;
        for (unsigned j = 0; j < k; ++j) ok = ok && s[b * k + j];
        full += ok;
    }
    CHECK(rr.blockSize() == k, "royal-block", "block size ", rr.blockSize(), " for ", k);
    CHECK(!s.invalid() && s.fitness() == full, "royal", "length ", n, " blocks of ", k, ": fitness ", s.fitness(), " for ", full, " complete blocks");
    event("royal");
    if (n % k) event("partial-block");
    if (full) event("full-block");
    state(mix(hb(s), k));
}

UNIT(building_blocks, 300, 5000, "matched,mismatched,several-targets")
{
    unsigned b = 1 + r.below(12), k = 1 + r.below(10), T = r.below(5);
    if (r.flip(.05)) b = 300, k = 3;
    BBRoyalRoadEval<B> ev(b, k);
    vector<vector<bool>> targets;
    vector<double> w;
    for (unsigned t = 0; t < T; ++t) {
        vector<bool> tg(k);
        for (unsigned j = 0; j < k; ++j) tg[j] = r.flip();
        targets.push_back(tg);
        w.push_back(r.real(0, 10));
        ev.addTarget(tg, w.back());
    }
    B s;
    fill(r, s, b * k + r.below(2) * r.below(k + 2));
    for (unsigned i = 0; i < b; ++i)
        if (T && r.flip()) {
            auto& tg = targets[r.below(T)];
            for (unsigned j = 0; j < k; ++j) s[i * k + j] = tg[j];
            if (r.flip(.3)) { unsigned j = r.below(k); s[i * k + j] = !s[i * k + j]; }
        }
    double want = 0;
    for (unsigned i = 0; i < b; ++i)
        for (unsigned t = 0; t < T; ++t) {
            int d = 0;
            for (unsigned j = 0; j < k; ++j) d += s[i * k + j] != targets[t][j];
            if (d == 0) { want += w[t]; event("matched"); }
            else { want += 1. / (1. + d); event("mismatched"); }
        }
    ev(s);
    if (T > 1) event("several-targets");
    CHECK(ev.blockSize() == k && ev.nbBlocks() == b && ev.getTargets() == targets, "bb-data", "blocks ", ev.nbBlocks(), " x ", ev.blockSize());
    CHECK(!s.invalid() && close((double)s.fitness(), want, 1e-12, 1e-12), "bb-royal", b, " blocks of ", k, ", ", T, " targets: fitness ", s.fitness(), " expected ", want);
    state(mix(hb(s), mix(b, T)));
}

namespace {
// the long k-path itself, built by its recursive definition (the block of k bits is appended at the end)
vector<vector<bool>> longPath(unsigned l, unsigned k)
{
    if (l == 1) return { { false }, { true } };
    auto p = longPath(l - k, k);
    vector<vector<bool>> out;
    for (auto x : p) { x.insert(x.end(), k, false); out.push_back(x); }
    for (unsigned j = 1; j < k; ++j) {
        auto x = p.back();
        x.insert(x.end(), k - j, true);
        x.insert(x.end(), j, false);
        out.push_back(x); // placed below in walking order
    }
    // bridge from ..0^k to ..1^k turns on one bit at a time
    reverse(out.end() - (k - 1), out.end());
    for (auto it = p.rbegin(); it != p.rend(); ++it) { auto x = *it; x.insert(x.end(), k, true); out.push_back(x); }
    return out;
}
}

UNIT(long_path, 60, 600, "on-path,bridge,off-path,last")
{
    unsigned k = 1 + r.below(6), blocks = r.below(7);
    while (1 + blocks * k > 26) --blocks;
    unsigned l = 1 + blocks * k;
    auto p = longPath(l, k);
    for (size_t i = 1; i < p.size(); ++i) {
        unsigned d = 0;
        for (unsigned j = 0; j < l; ++j) d += p[i][j] != p[i - 1][j];
        if (d != 1) { fprintf(stderr, "oracle path broken\n"); abort(); }
    }
    map<vector<bool>, size_t> rank;
    for (size_t i = 0; i < p.size(); ++i) rank[p[i]] = i;
    if (rank.size() != p.size()) abort();
    LongKPathEval<B> ev(k);
    size_t N = l <= 10 ? (size_t)1 << l : 600;
    for (size_t i = 0; i < N; ++i) {
        B s;
        s.resize(l);
        if (l <= 10) for (unsigned j = 0; j < l; ++j) s[j] = i >> j & 1;
        else if (i % 3) {
            auto& x = i < 3 ? p.back() : p[r.below(p.size())];
            for (unsigned j = 0; j < l; ++j) s[j] = x[j];
            if (i % 3 == 2) { unsigned j = r.below(l); s[j] = !s[j]; }
        }
        else fill(r, s, l);
        s.invalidate();
        vector<bool> v(s.begin(), s.end());
        ev(s);
        auto it = rank.find(v);
        double want;
        if (it != rank.end()) {
            want = l + it->second;
            event("on-path");
            if (it->second + 1 == p.size()) event("last");
            if (k > 1 && l > 1) {
                unsigned one = 0;
                for (unsigned j = 0; j < k; ++j) one += v[l - 1 - j];
                if (one && one < k) event("bridge");
            }
            if (k == 1 || l == 1) event("bridge");
        }
        else {
            want = 0;
            for (bool b : v) want += !b;
            event("off-path");
        }
        CHECK(!s.invalid() && s.fitness() == want, "long-path", "k=", k, " l=", l, " ", bits(s), ": fitness ", s.fitness(), " expected ", want, it != rank.end() ? " (on the path)" : " (off the path)");
        state(mix(hb(s), k));
    }
}

namespace {

void readWhole(const string& f, string& s)
{
    ifstream is(f);
    stringstream ss;
    ss << is.rdbuf();
    s = ss.str();
}

template <class EOT> double satValue(const vector<vector<int>>& c, const EOT& s)
{
    unsigned n = 0;
    for (auto& cl : c) {
        bool t = false;
        for (int l : cl) t = t || (l > 0 ? s[l - 1] : !s[-l - 1]);
        n += t;
    }
    return n;
}

}

UNIT(maxsat, 150, 2500, "random-instance,saved,hand-written,unsatisfied,comments")
{
    seedlib(r);
    bool rnd = r.flip();
    unsigned n, m;
    vector<vector<int>> want;
    shared_ptr<MaxSATeval<B>> ev;
    if (rnd) {
        unsigned k = 1 + r.below(5);
        n = k + r.below(30), m = r.below(80);
        if (r.flip(.05)) n = 300, m = 1000;
        ev = make_shared<MaxSATeval<B>>(n, m, k);
        for (unsigned i = 0; i < m; ++i) {
            want.push_back(ev->clauses[i]);
            CHECK(ev->clauses[i].size() == k, "sat-arity", "clause of ", ev->clauses[i].size(), " literals in a max ", k, "-SAT instance");
            set<int> vars;
            for (int l : ev->clauses[i]) {
                CHECK(l && (unsigned)abs(l) <= n, "sat-range", "literal ", l, " with ", n, " variables");
                vars.insert(abs(l));
            }
            CHECK(vars.size() == k, "sat-repeat", "a clause of ", k, " literals uses ", vars.size(), " variables");
        }
        event("random-instance");
    }
    else {
        n = 1 + r.below(25), m = r.below(40);
        string f = path("hand.cnf");
        ofstream o(f);
        if (r.flip()) { o << "c a comment with p cnf 3 4 in it\nc\nc cnf 1 2\n"; event("comments"); }
        o << "p cnf " << n << " " << m << "\n";
        for (unsigned i = 0; i < m; ++i) {
            vector<int> c;
            unsigned len = r.below(6);
            for (unsigned j = 0; j < len; ++j) {
                int l = 1 + r.below(n);
                if (find_if(c.begin(), c.end(), [&](int x) { return abs(x) == l; }) != c.end()) continue;
                c.push_back(r.flip() ? l : -l);
            }
            for (int l : c) o << l << (r.flip(.1) ? "\n" : " ");
            o << "0\n";
            want.push_back(c);
        }
        o.close();
        ev = make_shared<MaxSATeval<B>>(f);
        event("hand-written");
    }
    CHECK(ev->nbVar == n && ev->nbClauses == m, "sat-size", "instance of ", ev->nbVar, " variables, ", ev->nbClauses, " clauses for ", n, " and ", m);
    string f2 = path("saved.cnf");
    ev->save(f2);
    MaxSATeval<B> again(f2);
    CHECK(again.nbVar == n && again.nbClauses == m, "sat-saved-size", "saved instance reads back with ", again.nbVar, " variables, ", again.nbClauses, " clauses");
    event("saved");
    for (int t = 0; t < 20; ++t) {
        B s;
        fill(r, s, n);
        B u = s;
        (*ev)(s);
        double w = satValue(want, u);
        CHECK(s.fitness() == w, "sat-value", "fitness ", s.fitness(), " but ", w, " of ", m, " clauses hold for ", bits(u));
        again(u);
        CHECK(u.fitness() == w, "sat-saved-value", "saved instance gives ", u.fitness(), " instead of ", w);
        if (w < m) event("unsatisfied");
        if (m) {
            unsigned c = r.below(m);
            bool t1 = ev->clauseEval(c, s), t2 = satValue(vector<vector<int>>{ want[c] }, s) > 0;
            CHECK(t1 == t2, "sat-clause", "clause ", c, " reported ", t1);
        }
        state(mix(hb(u), m));
    }
    // every variable names exactly the clauses it occurs in
    for (unsigned v = 1; v <= n; ++v) {
        multiset<int> a, b;
        for (int c : ev->variables[v]) a.insert(abs(c));
        for (unsigned i = 0; i < m; ++i) for (int l : want[i]) if ((unsigned)abs(l) == v) b.insert(i);
        CHECK(a == b, "sat-occurrences", "variable ", v, " listed in ", a.size(), " clauses instead of ", b.size());
    }
}

namespace {

struct NkData {
    unsigned N, K;
    vector<vector<unsigned>> links;
    vector<vector<double>> tables;
};

template <class E> NkData grab(E& e)
{
    NkData d;
    d.N = e.N, d.K = e.K;
    for (unsigned i = 0; i < d.N; ++i) {
        d.links.emplace_back(e.links[i], e.links[i] + d.K + 1);
        d.tables.emplace_back(e.tables[i], e.tables[i] + (1u << (d.K + 1)));
    }
    return d;
}

double nkValue(const NkData& d, const B& s)
{
    long double t = 0;
    for (unsigned i = 0; i < d.N; ++i) {
        unsigned k = 0;
        for (unsigned j = 0; j <= d.K; ++j) k |= (unsigned)s[d.links[i][j]] << j;
        t += d.tables[i][k];
    }
    return (double)(t / d.N);
}

template <class E> void probe(Rand& r, E& e, const NkData& d, const char* what)
{
    CHECK(e.N == d.N && e.K == d.K, cat(what, "-size"), "N=", e.N, " K=", e.K, " instead of ", d.N, " ", d.K);
    for (int t = 0; t < 12; ++t) {
        B s;
        fill(r, s, d.N);
        e(s);
        double w = nkValue(d, s);
        CHECK(!s.invalid() && close((double)s.fitness(), w, 1e-13, 1e-15), cat(what, "-value"), "N=", d.N, " K=", d.K, " fitness ", s.fitness(), " expected ", w);
        state(mix(hb(s), hdbl(w)));
    }
}

void links(const NkData& d, bool consecutive)
{
    for (unsigned i = 0; i < d.N; ++i) {
        CHECK(d.links[i][0] == i, "nk-own-bit", "contribution ", i, " has first link ", d.links[i][0]);
        set<unsigned> s(d.links[i].begin(), d.links[i].end());
        CHECK(s.size() == d.K + 1 && *s.rbegin() < d.N, "nk-links", "contribution ", i, " of N=", d.N, " K=", d.K, " has ", s.size(), " distinct links");
        if (consecutive)
            for (unsigned j = 0; j <= d.K; ++j)
                CHECK(d.links[i][j] == (i + j) % d.N, "nk-consecutive", "link ", j, " of ", i, " is ", d.links[i][j]);
    }
}

template <class E, class Make> void fileTrip(Rand& r, E& e, const NkData& d, const char* what, Make other)
{
    string f = path("nk.dat");
    e.save(f.c_str());
    event("saved");
    {
        E x(f.c_str());
        NkData g = grab(x);
        CHECK(g.N == d.N && g.K == d.K && g.links == d.links, cat(what, "-file-links"), "links differ after reading the saved instance");
        CHECK(g.tables == d.tables, cat(what, "-file-tables"), "contributions differ after reading the saved instance");
        probe(r, x, d, cat(what, "-file").c_str());
    }
    {   // into an object which already holds an instance
        E y = E();
        if (r.flip()) y.load(f);
        y.load(f);
        probe(r, y, d, cat(what, "-reload").c_str());
        auto z = other();
        z->load(f);
        probe(r, *z, d, cat(what, "-load-over").c_str());
        event("loaded-over");
    }
    if (r.flip(.3)) {
        // a file in the documented format with other comment lines
        string s;
        readWhole(f, s);
        auto pos = s.find("\np ");
        ofstream o(path("nk2.dat"));
        o << "c one\nc p NK 3 3\nc" << s.substr(pos);
        o.close();
        E x(path("nk2.dat").c_str());
        probe(r, x, d, cat(what, "-comments").c_str());
        event("comments");
    }
}

}

UNIT(nk, 120, 2000, "random-links,consecutive,saved,loaded-over,comments,full-epistasis,no-epistasis")
{
    seedlib(r);
    unsigned N = 1 + r.below(r.flip(.1) ? 300 : 24), K = r.below(min(N, 7u));
    if (r.flip(.1)) K = 0;
    if (r.flip(.1)) { N = 1 + r.below(9); K = N - 1; }
    bool cons = r.flip(.4);
    nkLandscapesEval<B> e(N, K, cons);
    NkData d = grab(e);
    links(d, cons);
    event(cons ? "consecutive" : "random-links");
    if (K == 0) event("no-epistasis");
    if (K == N - 1) event("full-epistasis");
    for (auto& t : d.tables) for (double x : t) CHECK(x >= 0 && x < 1, "nk-range", "contribution ", x);
    probe(r, e, d, "nk");
    fileTrip(r, e, d, "nk", [&] { return make_shared<nkLandscapesEval<B>>(1 + r.below(9), 0, true); });
}

UNIT(nkp, 80, 1200, "saved,loaded-over,comments")
{
    seedlib(r);
    unsigned N = 1 + r.below(20), K = r.below(min(N, 6u));
    double p = r.flip(.2) ? 0 : r.flip(.2) ? 1 : r.u01();
    bool cons = r.flip();
    nkpLandscapesEval<B> e(N, K, p, cons);
    NkData d = grab(e);
    links(d, cons);
    size_t z = 0, n = 0;
    for (auto& t : d.tables) for (double x : t) { CHECK(x >= 0 && x < 1, "nkp-range", "contribution ", x); z += x == 0; ++n; }
    if (p == 0) CHECK(z <= 2, "nkp-zeros", z, " zeros with probability 0");
    else if (p == 1) CHECK(z == n, "nkp-zeros", z, " zeros of ", n, " with probability 1");
    else CHECK(!deviates(z, n, p), "nkp-zeros", z, " zeros of ", n, " with probability ", p);
    probe(r, e, d, "nkp");
    fileTrip(r, e, d, "nkp", [&] { return make_shared<nkpLandscapesEval<B>>(1 + r.below(9), 0, .5, true); });
    nkpLandscapesEval<B> x(path("nk.dat").c_str());
    CHECK(x.p == e.p, "nkp-file-p", "probability ", e.p, " read back as ", x.p);
}

UNIT(nkq, 80, 1200, "saved,loaded-over,comments,both-ends")
{
    seedlib(r);
    unsigned N = 1 + r.below(20), K = r.below(min(N, 6u)), q = 2 + r.below(r.flip() ? 3 : 100);
    bool cons = r.flip();
    nkqLandscapesEval<B> e(N, K, q, cons);
    NkData d = grab(e);
    links(d, cons);
    size_t n = 0, lo = 0, hi = 0;
    for (auto& t : d.tables) for (double x : t) {
        double v = x * (q - 1);
        CHECK(x >= 0 && x <= 1 && close(v, round(v), 1e-12, 1e-12), "nkq-levels", "contribution ", x, " is not one of ", q, " levels");
        lo += x == 0, hi += x == 1, ++n;
    }
    CHECK(!deviates(lo, n, 1. / q) && !deviates(hi, n, 1. / q), "nkq-law", lo, " lowest and ", hi, " highest of ", n, " with ", q, " levels");
    if (lo && hi) event("both-ends");
    probe(r, e, d, "nkq");
    fileTrip(r, e, d, "nkq", [&] { return make_shared<nkqLandscapesEval<B>>(1 + r.below(9), 0, 3, true); });
    nkqLandscapesEval<B> x(path("nk.dat").c_str());
    CHECK(x.q == e.q, "nkq-file-q", e.q, " levels read back as ", x.q);
}

UNIT(nk_law, 6, 60, "pairs")
{
    // random links: every other bit is equally likely; contributions are uniform
    seedlib(r);
    unsigned N = 5 + r.below(5), K = 1 + r.below(3), T = 400;
    vector<size_t> hits(N), below(4);
    for (unsigned t = 0; t < T; ++t) {
        nkLandscapesEval<B> e(N, K);
        for (unsigned j = 1; j <= K; ++j) ++hits[e.links[0][j]];
        ++below[min(3, (int)(e.tables[N - 1][r.below(1u << (K + 1))] * 4))];
    }
    for (unsigned i = 1; i < N; ++i)
        CHECK(!deviates(hits[i], T, (double)K / (N - 1)), "nk-link-law", "bit ", i, " linked to bit 0 ", hits[i], " times of ", T, " with N=", N, " K=", K);
    for (auto c : below) CHECK(!deviates(c, T, .25), "nk-table-law", "a quarter of the range got ", c, " of ", T, " contributions");
    event("pairs");
    state(mix(hits[1], below[0]));
}

namespace {
template <class S, class T> void qap(Rand& r, bool real)
{
    unsigned n = 1 + r.below(r.flip(.1) ? 60 : 12);
    vector<vector<T>> A(n, vector<T>(n)), Bm = A;
    string f = path("qap.dat");
    {
        ofstream o(f);
        o.precision(17);
        o << n << "\n\n";
        for (auto* M : { &A, &Bm }) {
            bool sym = r.flip();
            for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
                (*M)[i][j] = real ? (T)r.real(-10, 10) : (T)r.range(r.flip(.2) ? -1000 : 0, 1000);
                if (sym && j < i) (*M)[i][j] = (*M)[j][i];
            }
            for (auto& row : *M) { for (T x : row) o << " " << x; o << "\n"; }
            o << "\n";
        }
    }
    QAPeval<S, T> ev(f);
    CHECK(ev.getNbVar() == (int)n, "qap-size", "size ", ev.getNbVar(), " for ", n);
    for (int t = 0; t < 6; ++t) {
        S s;
        s.resize(n);
        for (unsigned i = 0; i < n; ++i) s[i] = i;
        vector<unsigned> p(n);
        for (unsigned i = 0; i < n; ++i) p[i] = i;
        r.shuffle(p);
        for (unsigned i = 0; i < n; ++i) s[i] = p[i];
        s.invalidate();
        ev(s);
        T want = 0;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) want += A[i][j] * Bm[p[i]][p[j]];
        CHECK(!s.invalid() && close((double)s.fitness(), (double)want, 1e-10, 1e-7 * real), "qap-value", "size ", n, ": cost ", (double)s.fitness(), " expected ", want);
        state(mix(hvec(p, 1), n));
    }
}
}

UNIT(qap, 150, 2500, "integer,real")
{
    if (r.flip()) { qap<eoInt<eoMinimizingFitness>, long>(r, false); event("integer"); }
    else { qap<eoInt<eoMinimizingFitness>, double>(r, true); event("real"); }
}

UNIT(queens, 250, 4000, "conflict,none")
{
    typedef eoInt<eoMinimizingFitness> Q;
    unsigned n = 1 + r.below(r.flip(.05) ? 400 : r.flip(.3) ? 4 : 30);
    vector<int> p(n);
    for (unsigned i = 0; i < n; ++i) p[i] = i;
    if (r.flip(.3) && n % 6 == 1) for (unsigned i = 0; i < n; ++i) p[i] = 2 * i % n; // a solution
    else if (r.flip(.1)) reverse(p.begin(), p.end());
    else if (!r.flip(.1)) r.shuffle(p);
    Q s;
    s.resize(n);
    for (unsigned i = 0; i < n; ++i) s[i] = p[i];
    queenEval<Q> ev;
    s.invalidate();
    ev(s);
    unsigned c = 0;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) c += abs(p[i] - p[j]) == (int)(j - i);
    event(c ? "conflict" : "none");
    CHECK(!s.invalid() && (double)s.fitness() == c, "queens", n, " queens: fitness ", (double)s.fitness(), " for ", c, " attacking pairs");
    state(hvec(p, n));
}

UNIT(ubqp, 200, 3000, "sparse,matrix,later-instance,asymmetric,bad-index")
{
    unsigned fmt = r.below(2), count = 1 + r.below(4), which = r.below(count);
    vector<vector<vector<int>>> Q(count);
    string f = path("ubqp.dat");
    {
        ofstream o(f);
        o << count << "\n";
        for (auto& M : Q) {
            unsigned n = 1 + r.below(r.flip(.05) ? 200 : 20);
            M.assign(n, vector<int>(n));
            if (fmt == 0) {
                vector<array<int, 3>> e;
                double dens = r.u01();
                bool upper = r.flip();
                for (unsigned i = 0; i < n; ++i) for (unsigned j = upper ? i : 0; j < n; ++j)
                    if (r.u01() < dens) { M[i][j] = r.range(-100, 100); e.push_back({ (int)i + 1, (int)j + 1, M[i][j] }); if (i > j) event("asymmetric"); }
                r.shuffle(e);
                o << n << " " << e.size() << "\n";
                for (auto& x : e) o << x[0] << " " << x[1] << " " << x[2] << "\n";
            }
            else {
                o << n << "\n";
                for (auto& row : M) { for (int& x : row) { x = r.range(-100, 100); o << x << " "; } o << "\n"; }
            }
        }
    }
    event(fmt ? "matrix" : "sparse");
    if (which) event("later-instance");
    UbqpEval<B> ev(f, fmt, which);
    auto& M = Q[which];
    unsigned n = M.size();
    CHECK(ev.getNbVar() == (int)n, "ubqp-size", "size ", ev.getNbVar(), " for ", n);
    for (int t = 0; t < 10; ++t) {
        B s;
        fill(r, s, n);
        ev(s);
        long want = 0;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (s[i] && s[j]) want += M[i][j];
        CHECK(!s.invalid() && s.fitness() == (double)want, "ubqp-value", "instance ", which, " of ", count, ", size ", n, ": fitness ", s.fitness(), " expected ", want);
        state(mix(hb(s), (uint64_t)want));
    }
    if (idx % 10 == 0) {
        string g = path("bad.dat");
        { ofstream o(g); o << "1\n2 1\n0 1 5\n"; }
        bool thrown = false;
        try { UbqpEval<B> bad(g); } catch (exception&) { thrown = true; }
        CHECK(thrown, "ubqp-index", "an instance with index 0 was accepted");
        event("bad-index");
    }
}

UNIT(missing_files, 4, 10, "refused")
{
    string f = path("does-not-exist");
    int n = 0;
    try { MaxSATeval<B> x(f); } catch (exception&) { ++n; }
    try { nkLandscapesEval<B> x(f.c_str()); } catch (exception&) { ++n; }
    try { nkpLandscapesEval<B> x(f.c_str()); } catch (exception&) { ++n; }
    try { nkqLandscapesEval<B> x(f.c_str()); } catch (exception&) { ++n; }
    try { UbqpEval<B> x(f); } catch (exception&) { ++n; }
    try { QAPeval<eoInt<eoMinimizingFitness>> x(f); } catch (exception&) { ++n; }
    CHECK(n == 6, "missing", n, " of 6 missing instance files were refused");
    event("refused");
    state(idx);
}

UNIT(dtlz, 400, 6000, "two,many,edge,valid-kept,dtlz1,dtlz2,dtlz3,dtlz4,dtlz5,dtlz6,dtlz7")
{
    unsigned M = 2 + (r.flip() ? 0 : r.below(8)), k = 1 + r.below(r.flip(.1) ? 300 : 12), n = M - 1 + k;
    event(M == 2 ? "two" : "many");
    vector<bool> mins(M, true);
    moeoObjectiveVectorTraits::setup(M, mins);
    vector<double> x(n);
    double mode = r.u01();
    for (auto& v : x) {
        v = r.u01();
        if (mode < .3) v = r.pick(vector<double>{ 0., 1., .5, .25, 1e-9 });
        if (mode > .3 && mode < .4) v = 0.5;
    }
    if (mode < .4) event("edge");
    double alpha = r.flip() ? 100. : r.real(.5, 10);
    DTLZ1Eval e1; DTLZ2Eval e2; DTLZ3Eval e3; DTLZ4Eval e4(alpha); DTLZ5Eval e5; DTLZ6Eval e6; DTLZ7Eval e7;
    typedef moeoEvalFunc<DTLZ> F;
    F* fs[7] = { &e1, &e2, &e3, &e4, &e5, &e6, &e7 };
    const double pi = acos(-1.);
    for (int f = 0; f < 7; ++f) {
        DTLZ s;
        s.resize(n);
        for (unsigned i = 0; i < n; ++i) s[i] = x[i];
        s.invalidate();
        (*fs[f])(s);
        event(cat("dtlz", f + 1).c_str());
        CHECK(!s.invalidObjectiveVector(), "dtlz-valid", "DTLZ", f + 1, " left no objective vector");
        for (unsigned i = 0; i < n; ++i) CHECK(s[i] == x[i], "dtlz-changed", "DTLZ", f + 1, " changed variable ", i);
        vector<long double> want(M);
        long double g = 0;
        auto xm = [&](unsigned i) { return (long double)x[M - 1 + i]; };
        for (unsigned i = 0; i < k; ++i)
            switch (f) {
            case 0: case 2: g += (xm(i) - .5L) * (xm(i) - .5L) - cosl(20 * pi * (xm(i) - .5L)); break;
            case 5: g += powl(xm(i), .1L); break;
            case 6: g += xm(i); break;
            default: g += (xm(i) - .5L) * (xm(i) - .5L);
            }
        if (f == 0 || f == 2) g = 100 * (k + g);
        if (f == 6) {
            g = 1 + 9 * g / k;
            long double h = M;
            for (unsigned i = 0; i + 1 < M; ++i) { want[i] = x[i]; h -= x[i] / (1 + g) * (1 + sinl(3 * pi * x[i])); }
            want[M - 1] = (1 + g) * h;
        }
        else
            for (unsigned i = 0; i < M; ++i) {
                // objective i: product over the first M-1-i positions, closed by position M-1-i
                long double v = (f == 0 ? .5L : 1.L) * (1 + g);
                auto angle = [&](unsigned j) -> long double {
                    if (f == 3) return powl(x[j], alpha) * pi / 2;
                    if (f >= 4 && j > 0) return pi / (4 * (1 + g)) * (1 + 2 * g * x[j]);
                    return x[j] * pi / 2;
                };
                for (unsigned j = 0; j + i + 1 < M; ++j) v *= f == 0 ? (long double)x[j] : cosl(angle(j));
                if (i) v *= f == 0 ? 1 - (long double)x[M - 1 - i] : sinl(angle(M - 1 - i));
                want[i] = v;
            }
        for (unsigned i = 0; i < M; ++i)
            CHECK(close(s.objectiveVector()[i], (double)want[i], 1e-9, 1e-9), "dtlz-value", "DTLZ", f + 1, " with ", M, " objectives, ", n, " variables: objective ", i, " is ", s.objectiveVector()[i], " expected ", (double)want[i]);
        state(mix(hvec(x, 3), f));
        // an evaluated solution is left alone
        DTLZ::ObjectiveVector o;
        for (unsigned i = 0; i < M; ++i) o[i] = 7 + i;
        s.objectiveVector(o);
        (*fs[f])(s);
        for (unsigned i = 0; i < M; ++i) CHECK(s.objectiveVector()[i] == 7 + i, "dtlz-kept", "DTLZ", f + 1, " re-evaluated a valid solution");
        event("valid-kept");
    }
}
