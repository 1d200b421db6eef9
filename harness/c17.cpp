// C17: neighbours move and undo exactly; neighbourhoods enumerate completely.
#include "eoh.h"
#include <ga.h>
#include <eoInt.h>
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/partition/moBinaryPartition.h>
#include <problems/partition/moBinaryPartitionSwapNeighbor.h>
#include <problems/partition/moBinaryPartitionSwapNeighborhood.h>
#include <set>
using namespace eoh;
typedef eoBit<double> Bit;
typedef eoBit<MinF> BitMin;
typedef eoInt<double> Perm;
typedef eoInt<MinF, unsigned int> PermMin;

template <class B> B bits(Rand& r, unsigned n) { B b(n); for (unsigned i = 0; i < n; ++i) b[i] = r.flip(); b.fitness(3); return b; }
template <class P> P perm(Rand& r, unsigned n) { P p(n); for (unsigned i = 0; i < n; ++i) p[i] = i; r.shuffle(p); p.fitness(3); return p; }
template <class V> std::vector<long> vals(const V& v) { std::vector<long> o; for (size_t i = 0; i < v.size(); ++i) o.push_back((long)v[i]); return o; }
static unsigned big(Rand& r, unsigned lo) { return r.flip(0.05) ? (unsigned)r.range(257, 700) : (unsigned)r.size(lo, 16); }
// move, check, undo, check; a copy and an assigned neighbour do the same
template <class N, class S> void moves(N& n, S& sol, const std::vector<long>& want, const char* what) {
    std::vector<long> before = vals(sol);
    for (int k = 0; k < 3; ++k) {
        N c(n), d;
        if (k == 2) d = n;
        N& use = k == 0 ? n : k == 1 ? c : d;
        use.move(sol);
        CHECK(vals(sol) == want, "move", what, k ? " (copied neighbour)" : "", ": ", show(before), " -> ", show(vals(sol)), " instead of ", show(want));
        use.moveBack(sol);
        CHECK(vals(sol) == before, "move-back", what, k ? " (copied neighbour)" : "", ": undo gives ", show(vals(sol)), " instead of ", show(before));
        // any number of times
        use.move(sol); use.moveBack(sol); use.move(sol);
        CHECK(vals(sol) == want, "move", what, ": second move after an undo gives ", show(vals(sol)));
        use.moveBack(sol);
    }
    // fitness goes along with copies
    n.fitness(5.5);
    N e(n), f;
    f = n;
    CHECK(!e.invalid() && !f.invalid() && val(e) == 5.5 && val(f) == 5.5, "neighbour-fitness", what, ": a copy of an evaluated neighbour loses its fitness");
    n.invalidate();
    N g(n), h(e);
    h = n;
    CHECK(g.invalid() && h.invalid(), "neighbour-fitness", what, ": a copy of an unevaluated neighbour has a fitness");
    event("moved");
    state(hvec(want, hvec(before, 1)));
}
template <class B> void bitCase(Rand& r) {
    unsigned n = big(r, 1);
    B s = bits<B>(r, n);
    moBitNeighbor<typename B::Fitness> nb;
    for (int k = 0; k < 4; ++k) {
        unsigned i = k == 0 ? 0 : k == 1 ? n - 1 : (unsigned)r.below(n);
        if (r.flip()) nb.index(i); else nb.index(s, i);
        auto w = vals(s);
        w[i] = !w[i];
        moves(nb, s, w, "bit flip");
        CHECK(nb.index() == i, "index", "bit flip ", i, " reads back ", nb.index());
        moBitNeighbor<typename B::Fitness> o;
        o.index((unsigned)r.below(n));
        CHECK(nb.equals(o) == (o.index() == i) && nb.equals(nb), "equals", "bit flips ", i, " and ", o.index());
    }
    moBitsNeighbor<B> m, kept;
    kept.nBits = 0;
    for (int k = 0; k < 3; ++k) {
        std::vector<unsigned> at(n);
        for (unsigned i = 0; i < n; ++i) at[i] = i;
        r.shuffle(at);
        at.resize((size_t)r.range(0, (int)std::min(n, 6u)));
        m.bits = at;
        m.nBits = (unsigned)at.size();
        auto w = vals(s);
        for (unsigned i : at) w[i] = !w[i];
        moves(m, s, w, "bits flip");
        kept = m; // over a neighbour of another size, as explorers keep the best one
        CHECK(kept.nBits == at.size() && kept.equals(m), "copy", "an assigned neighbour differs");
        moves(kept, s, w, "assigned bits flip");
        moBitsNeighbor<B> same(m), other(m);
        if (!at.empty()) other.bits[0] = (other.bits[0] + 1) % n;
        CHECK(m.equals(same), "equals", "the same bits are not equal");
        if (!at.empty() && n > 1) CHECK(!m.equals(other), "equals", "different bits are equal");
        other = m; other.nBits = 0; other.bits.clear();
        if (!at.empty()) CHECK(!m.equals(other) && !other.equals(m), "equals", "different numbers of bits are equal");
        event("bits_moved");
    }
}
UNIT(bit_moves, 400, 8000, "moved,bits_moved") { if (r.flip()) bitCase<Bit>(r); else bitCase<BitMin>(r); }

template <class P> void permCase(Rand& r) {
    unsigned n = big(r, 2);
    P s = perm<P>(r, n);
    for (int k = 0; k < 5; ++k) {
        unsigned i = (unsigned)r.below(n - 1), j = i + 1 + (unsigned)r.below(n - 1 - i);
        if (k == 0) { i = 0; j = n - 1; }
        if (k == 1) { i = n - 2; j = n - 1; }
        auto w = vals(s);
        std::swap(w[i], w[j]);
        moSwapNeighbor<P> sw;
        if (r.flip()) sw.setIndices(i, j); else sw.setIndices(j, i);
        moves(sw, s, w, "swap");
        moSwapNeighbor<P> other;
        other.setIndices(j, i);
        CHECK(sw.equals(other) && other.equals(sw), "equals", "a swap and its mirror differ");
        if (n > 2) { other.setIndices(i, (j + 1) % n == i ? (j + 2) % n : (j + 1) % n); CHECK(!sw.equals(other), "equals", "different swaps are equal"); }
        unsigned gi, gj;
        sw.getIndices(gi, gj);
        CHECK(std::minmax(gi, gj) == std::minmax(i, j), "index", "swap indices");
        moIndexedSwapNeighbor<P> is;
        is.set(s, i, j);
        moves(is, s, w, "indexed swap");
        moIndexedSwapNeighbor<P> is2;
        is2.index(s, is.index());
        CHECK(is2.first() == i && is2.second() == j && is2.index() == is.index(), "index", "swap (", i, ",", j, ") of ", n, " has index ", is.index(), " which means (", is2.first(), ",", is2.second(), ")");
        CHECK(is.equals(is2), "equals", "the same indexed swap differs");
        w = vals(s);
        std::reverse(w.begin() + i, w.begin() + j + 1);
        moTwoOptExNeighbor<P> to;
        to.setIndices(i, j);
        moves(to, s, w, "two-opt");
        moTwoOptExNeighbor<P> to2(to);
        CHECK(to.equals(to2), "equals", "the same two-opt differs");
        // shift: element at first goes before the element now at second
        unsigned f = (unsigned)r.below(n), g = (unsigned)r.below(n + 1);
        if (g == f || g == f + 1) continue;
        w = vals(s);
        long x = w[f];
        w.insert(w.begin() + g, x);
        w.erase(w.begin() + (g <= f ? f + 1 : f));
        moShiftNeighbor<P> sh;
        sh.set(s, f, g);
        moves(sh, s, w, "shift");
        moShiftNeighbor<P> sh2;
        sh2.index(s, sh.index());
        CHECK(sh2.first() == f && sh2.second() == g, "index", "shift (", f, ",", g, ") of ", n, " has index ", sh.index(), " which means (", sh2.first(), ",", sh2.second(), ")");
        event("shifted");
    }
}
UNIT(perm_moves, 400, 8000, "moved,shifted") { if (r.flip()) permCase<Perm>(r); else permCase<PermMin>(r); }

// every index of the pair structures means another move, all of them are met
UNIT(index_maps, 120, 1500, "maps") {
    unsigned n = (unsigned)r.size(2, 30);
    if (idx % 20 == 3) n = (unsigned)r.range(200, 500);
    Perm s = perm<Perm>(r, n);
    std::set<std::pair<unsigned, unsigned>> pairs;
    moIndexedSwapNeighbor<Perm> is;
    for (unsigned k = 0; k < n * (n - 1) / 2; ++k) {
        is.index(s, k);
        CHECK(is.first() < is.second() && is.second() < n, "index-outside", "index ", k, " of ", n, " means (", is.first(), ",", is.second(), ")");
        CHECK(is.index() == k, "index", k);
        pairs.insert({is.first(), is.second()});
    }
    CHECK(pairs.size() == (size_t)n * (n - 1) / 2, "index-incomplete", pairs.size(), " pairs of ", n * (n - 1) / 2);
    std::set<std::pair<unsigned, unsigned>> sh;
    moShiftNeighbor<Perm> sn;
    for (unsigned k = 0; k < n * (n - 1); ++k) {
        sn.index(s, k);
        unsigned f = sn.first(), g = sn.second();
        CHECK(f < n && g <= n && g != f && g != f + 1, "index-outside", "shift index ", k, " of ", n, " means (", f, ",", g, ")");
        sh.insert({f, g});
    }
    CHECK(sh.size() == (size_t)n * (n - 1), "index-incomplete", "shift: ", sh.size(), " moves of ", n * (n - 1));
    event("maps");
}

// passes over a neighbourhood
template <class NH, class N, class S, class F> void pass(NH& nh, S& s, N& n, size_t limit, F seen) {
    nh.init(s, n);
    seen(n);
    size_t k = 1;
    while (nh.cont(s)) {
        if (k >= limit) return;
        nh.next(s, n);
        seen(n);
        ++k;
    }
}
template <class B> void indexCase(Rand& r) {
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = r.flip(0.1) ? 1 : big(r, 1);
    B s = bits<B>(r, n);
    N nb;
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    unsigned cap = r.flip(0.3) ? 0 : (unsigned)r.range(1, 2 * (int)n);
    moRndWithReplNeighborhood<N> with(n, cap);
    CHECK(!order.isRandom() && without.isRandom() && with.isRandom(), "is-random", "random neighbourhoods are not told apart");
    for (int p = 0; p < 4; ++p) {
        // the solution may change between passes; a pass may be cut short
        bool cut = r.flip(0.4);
        size_t stop = cut ? (size_t)r.range(1, (int)n) : n + 5;
        std::vector<unsigned> v;
        CHECK(order.hasNeighbor(s) && without.hasNeighbor(s) && with.hasNeighbor(s), "has-neighbour", "size ", n);
        pass(order, s, nb, stop, [&](N& x) { v.push_back(x.index()); CHECK(order.position() == x.index(), "position", order.position(), " ", x.index()); });
        for (size_t i = 0; i < v.size(); ++i) CHECK(v[i] == i, "order", "place ", i, " is ", v[i]);
        CHECK(v.size() == std::min<size_t>(n, stop), "order-incomplete", v.size(), " neighbours of ", n);
        v.clear();
        pass(without, s, nb, stop, [&](N& x) { v.push_back(x.index()); CHECK(without.position() == x.index(), "position", without.position(), " ", x.index()); });
        std::set<unsigned> u(v.begin(), v.end());
        CHECK(u.size() == v.size(), "without-repeats", "a neighbour comes twice in ", show(v));
        CHECK(v.size() == std::min<size_t>(n, stop), "without-incomplete", v.size(), " neighbours of ", n);
        for (unsigned i : v) CHECK(i < n, "outside", i, " of ", n);
        event("without_pass");
        v.clear();
        pass(with, s, nb, cut ? stop : 3 * n + 7, [&](N& x) { v.push_back(x.index()); });
        for (unsigned i : v) CHECK(i < n, "outside", i, " of ", n);
        size_t want = cap ? cap : 3 * n + 7;
        CHECK(v.size() == std::min(want, cut ? stop : 3 * n + 7), "with-count", v.size(), " neighbours, at most ", cap);
        if (r.flip()) nb.move(s);
        state(hvec(v, p));
    }
    // the size may be changed
    unsigned m = (unsigned)r.range(1, (int)n + 5);
    order.setNeighborhoodSize(m); without.setNeighborhoodSize(m); with.setNeighborhoodSize(m);
    B s2 = bits<B>(r, m);
    std::set<unsigned> a, b;
    size_t na = 0, nbn = 0;
    pass(order, s2, nb, m + 5, [&](N& x) { a.insert(x.index()); ++na; });
    pass(without, s2, nb, m + 5, [&](N& x) { b.insert(x.index()); ++nbn; });
    CHECK(a.size() == m && na == m && *a.rbegin() == m - 1, "resize", "in order: ", a.size(), " neighbours of ", m);
    CHECK(b.size() == m && nbn == m && *b.rbegin() == m - 1, "resize", "without repetition: ", b.size(), " neighbours of ", m, " after ", n, ", largest ", *b.rbegin());
    CHECK(order.getNeighborhoodSize() == m, "resize", "size");
    moOrderNeighborhood<N> none(0);
    moRndWithoutReplNeighborhood<N> none2(0);
    moRndWithReplNeighborhood<N> none3(0);
    moDummyNeighborhood<N> dummy;
    CHECK(!none.hasNeighbor(s) && !none2.hasNeighbor(s) && !none3.hasNeighbor(s) && !dummy.hasNeighbor(s), "has-neighbour", "an empty neighbourhood has a neighbour");
    event("index_nh");
}
UNIT(index_nh, 400, 8000, "index_nh,without_pass") { if (r.flip()) indexCase<Bit>(r); else indexCase<BitMin>(r); }

UNIT(random_even, 6, 60, "even") {
    typedef moBitNeighbor<double> N;
    unsigned n = (unsigned)r.range(2, 9);
    Bit s = bits<Bit>(r, n);
    N nb;
    moRndWithoutReplNeighborhood<N> without(n);
    moRndWithReplNeighborhood<N> with(n, n);
    const int T = 4000;
    std::vector<double> first(n, 0), last(n, 0), w1(n, 0), w2(n, 0);
    for (int k = 0; k < T; ++k) {
        unsigned f = 0, l = 0;
        bool one = true;
        pass(without, s, nb, n + 1, [&](N& x) { if (one) f = x.index(); one = false; l = x.index(); });
        first[f]++; last[l]++;
        one = true;
        pass(with, s, nb, n + 1, [&](N& x) { if (one) f = x.index(); one = false; l = x.index(); });
        if (f < n) w1[f]++;
        if (l < n) w2[l]++;
    }
    for (unsigned i = 0; i < n; ++i)
        CHECK(!deviates(first[i], T, 1.0 / n) && !deviates(last[i], T, 1.0 / n) && !deviates(w1[i], T, 1.0 / n) && !deviates(w2[i], T, 1.0 / n), "uneven", "neighbour ", i, " of ", n, ": ", first[i], " ", last[i], " ", w1[i], " ", w2[i], " of ", T);
    event("even");
}
template <class P, class NH, class N> void pairCase(Rand& r, const char* what) {
    unsigned n = r.flip(0.05) ? (unsigned)r.range(60, 120) : (unsigned)r.size(2, 14);
    P s = perm<P>(r, n);
    NH nh;
    N nb;
    for (int p = 0; p < 3; ++p) {
        CHECK(nh.hasNeighbor(s), "has-neighbour", what, " of ", n);
        std::set<std::pair<unsigned, unsigned>> u;
        size_t count = 0, total = (size_t)n * (n - 1) / 2, stop = r.flip(0.3) ? (size_t)r.range(1, (int)total) : total + 9;
        pass(nh, s, nb, stop, [&](N& x) {
            unsigned a, b;
            x.getIndices(a, b);
            ++count;
            CHECK(a < n && b < n && a != b, "outside", what, " (", a, ",", b, ") of ", n);
            u.insert(std::minmax(a, b));
        });
        CHECK(u.size() == count, "pair-repeats", what, ": a pair comes twice, ", u.size(), " of ", count);
        CHECK(count == std::min(stop, total), "pair-incomplete", what, ": ", count, " of ", total, " pairs of ", n);
        if (r.flip()) nb.move(s);
        if (r.flip(0.3)) { n = (unsigned)r.size(2, 14); s = perm<P>(r, n); } // another solution, another size
        event("pair_pass");
    }
    P tiny(1);
    tiny[0] = 0;
    P none(0);
    CHECK(!nh.hasNeighbor(tiny) && !nh.hasNeighbor(none), "has-neighbour", what, " of one element");
}
UNIT(pair_nh, 300, 5000, "pair_pass") {
    if (r.flip()) pairCase<Perm, moSwapNeighborhood<Perm>, moSwapNeighbor<Perm>>(r, "swap");
    else if (r.flip()) pairCase<Perm, moTwoOptExNeighborhood<Perm>, moTwoOptExNeighbor<Perm>>(r, "two-opt");
    else if (r.flip()) pairCase<PermMin, moSwapNeighborhood<PermMin>, moSwapNeighbor<PermMin>>(r, "swap");
    else pairCase<PermMin, moTwoOptExNeighborhood<PermMin>, moTwoOptExNeighbor<PermMin>>(r, "two-opt");
}
static double choose(unsigned n, unsigned k) { double c = 1; for (unsigned i = 1; i <= k; ++i) c = c * (n - k + i) / i; return c; }
UNIT(bits_nh, 300, 5000, "bits_complete,bits_sample,bits_with,bits_rate") {
    typedef moBitsNeighbor<Bit> N;
    unsigned n = (unsigned)r.range(1, 9), d = (unsigned)r.range(1, (int)std::min(n, 4u));
    if (idx % 25 == 3) { n = (unsigned)r.range(10, 14); d = r.flip() ? n : n - 1; } // all subsets
    if (idx % 25 == 4) { n = (unsigned)r.range(200, 300); d = (unsigned)r.range(1, 2); }
    bool exact = r.flip();
    double total = 0;
    for (unsigned k = exact ? d : 1; k <= d; ++k) total += choose(n, k);
    Bit s = bits<Bit>(r, n);
    auto look = [&](N& x, std::vector<unsigned>& b) {
        CHECK(x.nBits <= x.bits.size(), "bits-outside", x.nBits, " bits, ", x.bits.size(), " listed");
        b.assign(x.bits.begin(), x.bits.begin() + std::min<size_t>(x.nBits, x.bits.size()));
        std::sort(b.begin(), b.end());
        CHECK(b.empty() || b.back() < n, "bits-outside", show(b), " of ", n);
        CHECK(std::unique(b.begin(), b.end()) == b.end(), "bits-twice", "a bit is listed twice: ", show(b));
    };
    {
        unsigned sample = r.flip() ? 0 : (unsigned)r.range(1, (int)total + 3);
        moBitsWithoutReplNeighborhood<N> nh(n, d, sample, exact);
        size_t want = sample == 0 || sample > total ? (size_t)total : sample;
        N nb;
        for (int p = 0; p < 2; ++p) {
            std::set<std::vector<unsigned>> u;
            size_t count = 0;
            pass(nh, s, nb, want + 5, [&](N& x) {
                std::vector<unsigned> b;
                look(x, b);
                CHECK(exact ? b.size() == d : b.size() >= 1 && b.size() <= d, "bits-distance", b.size(), " bits, allowed ", d, exact ? " exactly" : "");
                u.insert(b);
                ++count;
                if (count % 50 == 1) { auto w = vals(s); auto o = w; for (unsigned i : b) w[i] = !w[i]; x.move(s); CHECK(vals(s) == w, "move", "bits"); x.moveBack(s); CHECK(vals(s) == o, "move-back", "bits"); }
            });
            CHECK(u.size() == count, "bits-repeats", "without repetition: ", u.size(), " different of ", count);
            CHECK(count == want, "bits-incomplete", count, " neighbours instead of ", want, " (n=", n, " d=", d, exact ? " exact" : "", " sample=", sample, ")");
            event(sample == 0 ? "bits_complete" : "bits_sample");
        }
    }
    {
        unsigned sample = (unsigned)r.range(1, 40);
        moBitsWithReplNeighborhood<N> nh(n, d, sample, exact);
        size_t want = sample > total ? (size_t)total : sample;
        N nb;
        size_t count = 0;
        pass(nh, s, nb, want + 5, [&](N& x) {
            std::vector<unsigned> b;
            look(x, b);
            CHECK(exact ? b.size() == d : b.size() >= 1 && b.size() <= d, "bits-distance", "with repetition: ", b.size(), " bits, allowed ", d, exact ? " exactly" : "");
            ++count;
        });
        CHECK(count == want, "bits-incomplete", "with repetition: ", count, " neighbours instead of ", want);
        event("bits_with");
    }
    {
        double rate = r.pick(std::vector<double>{0, 1, 0.3});
        unsigned sample = (unsigned)r.range(1, 20);
        moBitFlipNeighborhood<N> nh(rate, n, sample);
        N nb;
        size_t count = 0;
        CHECK(nh.hasNeighbor(s) && nh.isRandom(), "has-neighbour", "bit flips");
        pass(nh, s, nb, sample + 5, [&](N& x) {
            std::vector<unsigned> b;
            look(x, b);
            if (rate == 0) CHECK(b.empty(), "bits-rate", "rate 0 flips ", b.size());
            if (rate == 1) CHECK(b.size() == n, "bits-rate", "rate 1 flips ", b.size(), " of ", n);
            auto w = vals(s), o = w;
            for (unsigned i : b) w[i] = !w[i];
            x.move(s);
            CHECK(vals(s) == w, "move", "bits");
            x.moveBack(s);
            CHECK(vals(s) == o, "move-back", "bits");
            ++count;
        });
        CHECK(count == sample, "bits-incomplete", "bit flips: ", count, " neighbours instead of ", sample);
        event("bits_rate");
    }
}
UNIT(bits_even, 6, 60, "bits_even") {
    typedef moBitsNeighbor<Bit> N;
    unsigned n = (unsigned)r.range(3, 5), d = (unsigned)r.range(1, 3);
    bool exact = r.flip(0.3);
    std::map<std::vector<unsigned>, double> c, c2;
    double total = 0, rate = r.real(0.2, 0.8);
    for (unsigned k = exact ? d : 1; k <= d; ++k) total += choose(n, k);
    Bit s = bits<Bit>(r, n);
    moBitsWithReplNeighborhood<N> nh(n, d, 2, exact);
    moBitsWithoutReplNeighborhood<N> nh2(n, d, 2, exact);
    moBitFlipNeighborhood<N> nf(rate, n, 1);
    N nb;
    const int T = 6000;
    std::vector<double> flips(n, 0);
    for (int k = 0; k < T; ++k) {
        nh.init(s, nb);
        std::vector<unsigned> b(nb.bits.begin(), nb.bits.begin() + nb.nBits);
        std::sort(b.begin(), b.end());
        c[b]++;
        nh2.init(s, nb);
        b.assign(nb.bits.begin(), nb.bits.begin() + nb.nBits);
        std::sort(b.begin(), b.end());
        c2[b]++;
        nf.init(s, nb);
        for (unsigned i = 0; i < nb.nBits; ++i) flips[nb.bits[i]]++;
    }
    CHECK(c.size() == (size_t)total && c2.size() == (size_t)total, "bits-reach", c.size(), " and ", c2.size(), " of ", total, " neighbours drawn");
    for (auto& p : c) CHECK(!deviates(p.second, T, 1 / total), "bits-uneven", "with repetition ", show(p.first), " drawn ", p.second, " of ", T, ", one of ", total);
    for (auto& p : c2) CHECK(!deviates(p.second, T, 1 / total), "bits-uneven", "without repetition ", show(p.first), " drawn ", p.second, " of ", T, ", one of ", total);
    for (unsigned i = 0; i < n; ++i) CHECK(!deviates(flips[i], T, rate), "bits-uneven", "bit ", i, " flipped ", flips[i], " of ", T, " at rate ", rate);
    event("bits_even");
}
UNIT(partition, 300, 5000, "partition_pass,partition_none") {
    typedef moBinaryPartition<double> S;
    typedef moBinaryPartitionSwapNeighbor<S> N;
    unsigned n = (unsigned)r.size(2, 14), k = (unsigned)r.range(1, (int)n - 1);
    S s(n);
    CHECK(s.rejected.size() == n && s.selected.empty(), "partition", "a new partition");
    std::vector<size_t> a(n);
    for (unsigned i = 0; i < n; ++i) a[i] = i;
    r.shuffle(a);
    for (unsigned i = 0; i < k; ++i) s.select(a[i]);
    s.fitness(1);
    moBinaryPartitionSwapNeighborhood<S> nh;
    for (int p = 0; p < 2; ++p) {
        std::set<std::pair<size_t, size_t>> u;
        size_t count = 0;
        N nb;
        auto sel = s.selected, rej = s.rejected;
        CHECK(nh.hasNeighbor(s), "has-neighbour", "partition ", k, " of ", n);
        size_t stop = r.flip(0.3) ? (size_t)r.range(1, (int)(k * (n - k))) : k * (n - k) + 4;
        pass(nh, s, nb, stop, [&](N& x) {
            auto io = x.get();
            CHECK(rej.count(io.first) && sel.count(io.second), "outside", "swap ", io.first, " ", io.second);
            u.insert(io);
            ++count;
            auto ws = sel, wr = rej;
            ws.erase(io.second); ws.insert(io.first); wr.erase(io.first); wr.insert(io.second);
            N c(x), d;
            d = x;
            N& use = count % 3 == 0 ? x : count % 3 == 1 ? c : d;
            use.move(s);
            CHECK(s.selected == ws && s.rejected == wr, "move", "partition swap ", io.first, " ", io.second);
            use.moveBack(s);
            CHECK(s.selected == sel && s.rejected == rej, "move-back", "partition swap");
        });
        CHECK(u.size() == count && count == std::min<size_t>(stop, k * (n - k)), "partition-incomplete", u.size(), " different of ", count, " swaps, ", k * (n - k), " exist");
        event("partition_pass");
        nb.move(s);
    }
    S full(n), empty(n);
    for (unsigned i = 0; i < n; ++i) full.select(i);
    CHECK(!nh.hasNeighbor(full), "has-neighbour", "everything selected");
    CHECK(!nh.hasNeighbor(empty), "has-neighbour", "nothing selected: there is nothing to swap");
    event("partition_none");
}
UNIT(evaluated_nh, 150, 2000, "evaluated") {
    typedef moBitNeighbor<double> N;
    struct Count : public moNeighborhoodEvaluation<N> { int calls = 0; void operator()(Bit&) { ++calls; } } ev;
    unsigned n = (unsigned)r.size(1, 20);
    Bit s = bits<Bit>(r, n);
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    bool rnd = r.flip();
    moEvaluatedNeighborhood<N> nh(rnd ? (moNeighborhood<N>&)without : (moNeighborhood<N>&)order, ev);
    CHECK(nh.isRandom() == rnd && nh.hasNeighbor(s), "evaluated", "random ", nh.isRandom());
    N nb;
    for (int p = 1; p <= 3; ++p) {
        std::set<unsigned> u;
        size_t c = 0;
        pass(nh, s, nb, n + 4, [&](N& x) { u.insert(x.index()); ++c; });
        CHECK(c == n && u.size() == n, "evaluated-incomplete", u.size(), " different of ", c, " of ", n);
        CHECK(ev.calls == p, "evaluated-calls", ev.calls, " evaluations of the neighbourhood in ", p, " passes");
    }
    event("evaluated");
}
