// C10: permutation operators and initialisers always yield permutations.
#include "mon.h"
#include <eo>
#include <eoInt.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
using namespace mon;
typedef eoInt<double> Perm;             // size_t genes
typedef eoInt<eoMinimizingFitness, int> PermI; // int genes, minimised

template <class P> P randomPerm(Rand& r, unsigned n, unsigned start) {
    P p(n);
    for (unsigned i = 0; i < n; ++i) p[i] = i + start;
    r.shuffle(p);
    p.fitness(1.0);
    return p;
}
template <class P> bool isPerm(const P& p, unsigned n, unsigned start) {
    if (p.size() != n) return false;
    std::vector<bool> seen(n, false);
    for (unsigned i = 0; i < n; ++i) {
        long v = (long)p[i] - (long)start;
        if (v < 0 || v >= (long)n || seen[v]) return false;
        seen[v] = true;
    }
    return true;
}
static unsigned permSize(Rand& r, unsigned lo) {
    if (r.flip(0.1)) return (unsigned)r.range(100, 400);
    return (unsigned)r.size(lo, 24);
}

template <class P> void initCase(Rand& r) {
    unsigned n = permSize(r, 1), start = r.flip() ? 0 : (unsigned)r.range(1, 5);
    eoInitPermutation<P> init(n, start);
    P p(r.flip() ? 0 : (unsigned)r.range(0, 50));
    if (p.size()) p.fitness(3.0);
    for (int k = 0; k < 3; ++k) {
        init(p);
        event("init");
        CHECK(isPerm(p, n, start), "init-not-permutation", "n=", n, " start=", start, " got ", show(p));
        CHECK(p.invalid(), "init-valid-fitness", "fitness of a freshly initialised permutation is valid");
        state(hvec(p, n));
    }
}
UNIT(init, 400, 6000, "init") { if (r.flip()) initCase<Perm>(r); else initCase<PermI>(r); }

// Uniformity of the initialiser: every element equally often at every place.
UNIT(init_uniform, 6, 60, "init_draws") {
    unsigned n = (unsigned)r.range(2, 7), start = (unsigned)r.range(0, 2);
    eoInitPermutation<Perm> init(n, start);
    const int N = 6000;
    std::vector<std::vector<double>> c(n, std::vector<double>(n, 0));
    Perm p;
    for (int k = 0; k < N; ++k) {
        init(p);
        if (!isPerm(p, n, start)) { fail("init-not-permutation", show(p)); return; }
        for (unsigned i = 0; i < n; ++i) c[i][p[i] - start]++;
    }
    event("init_draws", N);
    state(mix(n, start));
    for (unsigned i = 0; i < n; ++i)
        for (unsigned v = 0; v < n; ++v)
            CHECK(!deviates(c[i][v], N, 1.0 / n), "init-not-uniform", "element ", v, " at position ", i, " seen ", c[i][v], " of ", N, " n=", n);
}

template <class P> void swapCase(Rand& r) {
    unsigned n = permSize(r, 2), start = (unsigned)r.range(0, 3), k = r.flip() ? 1 : (unsigned)r.range(1, 6);
    eoSwapMutation<P> op(k);
    P p = randomPerm<P>(r, n, start);
    for (int t = 0; t < 4; ++t) {
        P q(p);
        bool changed = op(p);
        event("swap");
        CHECK(isPerm(p, n, start), "swap-not-permutation", "from ", show(q), " to ", show(p));
        unsigned diff = 0;
        for (unsigned i = 0; i < n && i < p.size(); ++i) diff += p[i] != q[i];
        CHECK(diff <= 2 * k, "swap-too-many", k, " swaps changed ", diff, " positions");
        if (k == 1) CHECK(diff == 2, "swap-not-two", "one swap changed ", diff, " positions: ", show(q), " -> ", show(p));
        CHECK(changed || diff == 0, "swap-unreported", "changed but returned false");
        if (k % 2 == 1) { // parity: an odd number of exchanges is an odd permutation
            std::vector<unsigned> pos(n);
            for (unsigned i = 0; i < n; ++i) pos[(unsigned)q[i] - start] = i;
            std::vector<bool> vis(n, false);
            unsigned cycles = 0;
            for (unsigned i = 0; i < n; ++i)
                if (!vis[i]) { ++cycles; for (unsigned j = i; !vis[j]; j = pos[(unsigned)p[j] - start]) vis[j] = true; }
            CHECK((n - cycles) % 2 == 1, "swap-parity", k, " exchanges gave an even permutation");
        }
        state(mix(hvec(p), hvec(q)));
    }
}
UNIT(swap, 600, 8000, "swap") { if (r.flip()) swapCase<Perm>(r); else swapCase<PermI>(r); }

UNIT(swap_pairs, 6, 60, "swap_draws") {
    unsigned n = (unsigned)r.range(2, 6);
    eoSwapMutation<Perm> op;
    std::map<std::pair<unsigned, unsigned>, double> c;
    const int N = 6000;
    for (int k = 0; k < N; ++k) {
        Perm p(n);
        for (unsigned i = 0; i < n; ++i) p[i] = i;
        op(p);
        std::vector<unsigned> d;
        for (unsigned i = 0; i < n; ++i) if (p[i] != i) d.push_back(i);
        if (d.size() != 2) { fail("swap-not-two", show(p)); return; }
        c[std::make_pair(d[0], d[1])]++;
    }
    event("swap_draws", N);
    state(n);
    double pr = 2.0 / (n * (n - 1));
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = i + 1; j < n; ++j)
            CHECK(!deviates(c[std::make_pair(i, j)], N, pr), "swap-not-uniform", "pair ", i, ",", j, " n=", n, " count ", c[std::make_pair(i, j)]);
}

template <class P> void shiftCase(Rand& r) {
    unsigned n = permSize(r, 2), start = (unsigned)r.range(0, 3);
    eoShiftMutation<P> op;
    P p = randomPerm<P>(r, n, start);
    for (int t = 0; t < 4; ++t) {
        P q(p);
        bool changed = op(p);
        event("shift");
        CHECK(isPerm(p, n, start), "shift-not-permutation", "from ", show(q), " to ", show(p));
        if (p.size() != n) return;
        // one element is displaced: deleting it from both leaves the same sequence
        unsigned a = 0, b = n - 1;
        while (a < n && p[a] == q[a]) ++a;
        CHECK(a < n, "shift-no-change", "nothing moved: ", show(q));
        if (a >= n) continue;
        while (b > a && p[b] == q[b]) --b;
        bool fwd = p[a] == q[b], bwd = p[b] == q[a];
        for (unsigned i = a; i < b; ++i) { if (p[i + 1] != q[i]) fwd = false; if (p[i] != q[i + 1]) bwd = false; }
        CHECK(fwd || bwd, "shift-not-displacement", show(q), " -> ", show(p));
        CHECK(changed, "shift-unreported", "changed but returned false");
        state(mix(hvec(p), hvec(q)));
    }
}
UNIT(shift, 600, 8000, "shift") { if (r.flip()) shiftCase<Perm>(r); else shiftCase<PermI>(r); }

template <class P> void twoOptCase(Rand& r) {
    unsigned n = permSize(r, 2), start = (unsigned)r.range(0, 3);
    eoTwoOptMutation<P> op;
    P p = randomPerm<P>(r, n, start);
    for (int t = 0; t < 4; ++t) {
        P q(p);
        bool changed = op(p);
        event("twoopt");
        CHECK(isPerm(p, n, start), "twoopt-not-permutation", "from ", show(q), " to ", show(p));
        if (p.size() != n) return;
        unsigned a = 0, b = n - 1;
        while (a < n && p[a] == q[a]) ++a;
        CHECK(a < n, "twoopt-no-change", "nothing reversed: ", show(q));
        if (a >= n) continue;
        while (b > a && p[b] == q[b]) --b;
        bool rev = true;
        for (unsigned i = a; i <= b; ++i) if (p[i] != q[b - (i - a)]) rev = false;
        CHECK(rev, "twoopt-not-reversal", show(q), " -> ", show(p));
        CHECK(changed, "twoopt-unreported", "changed but returned false");
        state(mix(hvec(p), hvec(q)));
    }
}
UNIT(twoopt, 600, 8000, "twoopt") { if (r.flip()) twoOptCase<Perm>(r); else twoOptCase<PermI>(r); }

// Every segment (i,j) must be reachable, equally often, for reversal and shift.
template <class Op> void segmentDraws(Rand& r, const char* what) {
    unsigned n = (unsigned)r.range(2, 6);
    Op op;
    std::map<std::pair<unsigned, unsigned>, double> c;
    const int N = 6000;
    for (int k = 0; k < N; ++k) {
        Perm p(n);
        for (unsigned i = 0; i < n; ++i) p[i] = i;
        op(p);
        unsigned a = 0, b = n - 1;
        while (a < n && p[a] == a) ++a;
        if (a >= n) { fail(cat(what, "-no-change"), show(p)); return; }
        while (p[b] == b) --b;
        c[std::make_pair(a, b)]++;
    }
    event("segment_draws", N);
    state(mix(n, hstr(what)));
    double pr = 2.0 / (n * (n - 1));
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = i + 1; j < n; ++j)
            CHECK(!deviates(c[std::make_pair(i, j)], N, pr), cat(what, "-not-uniform"), "segment ", i, ",", j, " n=", n, " count ", c[std::make_pair(i, j)]);
}
UNIT(segments, 8, 80, "segment_draws") { if (idx % 2) segmentDraws<eoTwoOptMutation<Perm>>(r, "twoopt"); else segmentDraws<eoShiftMutation<Perm>>(r, "shift"); }

// Order crossover: a contiguous segment of one parent, then the remaining
// elements in the cyclic order (either direction) in which they follow the last
// element of that segment in the other parent.
template <class P> P orderChild(const P& a, const P& b, unsigned c1, unsigned c2, int dir, unsigned start) {
    unsigned n = a.size();
    P ch(n);
    unsigned id = 0;
    std::vector<bool> used(n, false);
    for (unsigned i = c1; i < c2; ++i) { ch[id++] = a[i]; used[(unsigned)a[i] - start] = true; }
    long from = 0;
    while (b[from] != a[c2 - 1]) ++from;
    for (unsigned i = 0; i < n; ++i) {
        long j = ((from + dir * (long)i) % (long)n + n) % n;
        if (!used[(unsigned)b[j] - start]) { ch[id++] = b[j]; used[(unsigned)b[j] - start] = true; }
    }
    return ch;
}
template <class P> bool same(const P& a, const P& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class P> void orderCase(Rand& r) {
    unsigned n = r.flip(0.15) ? (unsigned)r.range(20, 90) : (unsigned)r.size(1, 12), start = (unsigned)r.range(0, 3);
    eoOrderXover<P> op;
    P a = randomPerm<P>(r, n, start), b = r.flip(0.1) ? a : randomPerm<P>(r, n, start);
    P x(a), y(b);
    bool changed = op(x, y);
    event("order");
    CHECK(isPerm(x, n, start) && isPerm(y, n, start), "order-not-permutation", show(a), " x ", show(b), " -> ", show(x), " , ", show(y));
    CHECK(changed || (same(x, a) && same(y, b)), "order-unreported", "changed but returned false");
    state(mix(hvec(x), hvec(y)));
    bool ok = false;
    for (unsigned c2 = 1; c2 <= n && !ok; ++c2)
        for (unsigned c1 = 0; c1 < c2 && !ok; ++c1)
            for (int d = -1; d <= 1 && !ok; d += 2) {
                // reject early on the first element
                if (x.size() != n || x[0] != a[c1] || y[0] != b[c1]) continue;
                ok = same(x, orderChild(a, b, c1, c2, d, start)) && same(y, orderChild(b, a, c1, c2, d, start));
            }
    CHECK(ok, "order-rule", "no segment and direction explain ", show(a), " x ", show(b), " -> ", show(x), " , ", show(y));
}
UNIT(order, 700, 8000, "order") { if (r.flip()) orderCase<Perm>(r); else orderCase<PermI>(r); }

// Partially mapped crossover over 0..n-1: exchange a segment, and follow the
// mapping of the segment elsewhere.
template <class P> P pmxChild(const P& a, const P& b, unsigned i1, unsigned i2) {
    unsigned n = a.size();
    P ch(a);
    std::map<long, long> m; // b's segment element -> a's
    for (unsigned i = i1; i <= i2; ++i) m[(long)b[i]] = (long)a[i];
    for (unsigned i = 0; i < n; ++i) {
        if (i >= i1 && i <= i2) { ch[i] = b[i]; continue; }
        long v = (long)a[i];
        while (m.count(v)) v = m[v];
        ch[i] = v;
    }
    return ch;
}
UNIT(pmx, 700, 8000, "pmx") {
    unsigned n = r.flip(0.15) ? (unsigned)r.range(20, 60) : (unsigned)r.size(1, 12);
    eoPartiallyMappedXover<Perm> op;
    Perm a = randomPerm<Perm>(r, n, 0), b = r.flip(0.1) ? a : randomPerm<Perm>(r, n, 0);
    Perm x(a), y(b);
    bool changed = op(x, y);
    event("pmx");
    CHECK(isPerm(x, n, 0) && isPerm(y, n, 0), "pmx-not-permutation", show(a), " x ", show(b), " -> ", show(x), " , ", show(y));
    CHECK(changed || (same(x, a) && same(y, b)), "pmx-unreported", "changed but returned false");
    state(mix(hvec(x), hvec(y)));
    if (n < 2) { CHECK(same(x, a) && same(y, b), "pmx-single", "one-element parents changed"); return; }
    bool ok = false;
    for (unsigned i1 = 0; i1 < n && !ok; ++i1)
        for (unsigned i2 = i1 + 1; i2 < n && !ok; ++i2)
            ok = x.size() == n && x[i1] == b[i1] && same(x, pmxChild(a, b, i1, i2)) && same(y, pmxChild(b, a, i1, i2));
    CHECK(ok, "pmx-rule", "no segment explains ", show(a), " x ", show(b), " -> ", show(x), " , ", show(y));
}

// Long histories: a pool of permutations under all operators stays a pool of
// permutations of the same elements.
UNIT(history, 30, 600, "history_steps") {
    unsigned n = (unsigned)r.size(2, 40), start = 0;
    std::vector<Perm> pool;
    eoInitPermutation<Perm> init(n, start);
    for (int i = 0; i < 6; ++i) { Perm p; init(p); pool.push_back(p); }
    eoSwapMutation<Perm> sw((unsigned)r.range(1, 4));
    eoShiftMutation<Perm> sh;
    eoTwoOptMutation<Perm> to;
    eoOrderXover<Perm> ox;
    eoPartiallyMappedXover<Perm> px;
    for (int t = 0; t < 300; ++t) {
        unsigned i = r.below(6), j = (i + 1 + r.below(5)) % 6;
        switch (r.below(5)) {
        case 0: sw(pool[i]); break;
        case 1: sh(pool[i]); break;
        case 2: to(pool[i]); break;
        case 3: ox(pool[i], pool[j]); break;
        default: px(pool[i], pool[j]);
        }
        event("history_steps");
        CHECK(isPerm(pool[i], n, start) && isPerm(pool[j], n, start), "history-not-permutation", show(pool[i]), show(pool[j]));
        if (t % 10 == 0) state(hvec(pool[i]));
    }
}

// Long permutations: past the ranges of 8 and 16 bit positions and values.
UNIT(large, 12, 60, "large") {
    unsigned n = idx % 12 == 0 ? 66000 + (unsigned)r.below(500) : idx % 3 == 0 ? (unsigned)r.range(254, 259) : (unsigned)r.range(260, 900);
    Perm a = randomPerm<Perm>(r, n, 0), b = randomPerm<Perm>(r, n, 0);
    eoSwapMutation<Perm> swap((unsigned)r.range(1, 3));
    eoShiftMutation<Perm> shift;
    eoTwoOptMutation<Perm> twoopt;
    eoOrderXover<Perm> order;
    eoPartiallyMappedXover<Perm> pmx;
    for (unsigned k = 0; k < (n > 5000 ? 6u : 40u); ++k) {
        const char* what = "";
        switch (k % 6) {
        case 0: order(a, b); what = "order crossover"; break;
        case 1: pmx(a, b); what = "partially mapped crossover"; break;
        case 2: swap(a); what = "swap"; break;
        case 3: shift(b); what = "shift"; break;
        case 4: twoopt(a); what = "2-opt"; break;
        default: { eoInitPermutation<Perm> init(n); init(b); what = "initialiser"; }
        }
        event("large");
        if (!isPerm(a, n, 0) || !isPerm(b, n, 0)) { fail("large-not-permutation", cat(what, " on ", n, " elements")); return; }
    }
    state(mix(n, hvec(a)));
}
