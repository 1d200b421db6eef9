// C15: population order and statistics describe the population exactly.
#include "c15.h"

template <class E> void order(Rand& r) {
    Quiet q; eo::rng.reseed((uint32_t)r.next());
    unsigned n = someSize(r); eoPop<E> p = PopOf<E>()(r, n); const eoPop<E> orig = p; auto best = ranks(p); auto all = ids(orig);
    auto same = [&](const eoPop<E>& x, const char* what) { CHECK(x.size() == n && ids(x) == all && sameFit(orig, x), "lost", what, ": somebody was lost, duplicated or changed, size ", n); };
    auto refs = [&](const std::vector<const E*>& v, const char* what) { std::set<const E*> s(v.begin(), v.end()); CHECK(v.size() == n && s.size() == n && *s.begin() >= &p[0] && *s.rbegin() <= &p[n - 1], "lost", what, ": references"); };
    { std::vector<const E*> v; p.sort(v); refs(v, "sorted references"); for (unsigned i = 0; i < n; ++i) CHECK(rk(*v[i]) == best[i], "sort", "reference ", i, " of ", n); same(p, "sort references"); event("sort"); }
    { std::vector<const E*> v(3); p.shuffle(v); refs(v, "shuffled references"); same(p, "shuffle references"); CHECK(idseq(p) == idseq(orig), "moved", "shuffling references moved individuals"); }
    { eoPop<E> x = p; x.shuffle(); same(x, "shuffle"); if (n > 30) CHECK(idseq(x) != idseq(p), "shuffle", "order unchanged for ", n); event("shuffle"); }
    CHECK(rk(p.best_element()) == best[0], "best", "of ", n); CHECK(rk(p.worse_element()) == best[n - 1], "worst", "of ", n);
    CHECK(&p.best_element() >= &p[0] && &p.best_element() <= &p[n - 1], "best", "not in the population");
    { eoPop<E> x = p; auto it = x.it_best_element(); CHECK(it >= x.begin() && it < x.end() && rk(*it) == best[0], "best", "iterator"); it = x.it_worse_element(); CHECK(it >= x.begin() && it < x.end() && rk(*it) == best[n - 1], "worst", "iterator"); event("extremes"); }
    for (int k = 0; k < 4; ++k) {
        unsigned w = k == 0 ? 0 : k == 1 ? n - 1 : (unsigned)r.below(n);
        CHECK(rank(p.nth_element_fitness((int)w)) == best[w], "nth", "fitness ", w, " of ", n);
        eoPop<E> x = p; auto it = x.nth_element((int)w); CHECK(it - x.begin() == (long)w, "nth", "position"); CHECK(rk(*it) == best[w], "nth", "element ", w, " of ", n); same(x, "nth element");
        for (unsigned i = 0; i < n; ++i) CHECK(i < w ? !(rk(x[i]) < rk(x[w])) : !(rk(x[w]) < rk(x[i])), "nth", "not partitioned");
        std::vector<const E*> v; p.nth_element((int)w, v); refs(v, "nth reference"); CHECK(rk(*v[w]) == best[w], "nth", "reference ", w, " of ", n);
        for (unsigned i = 0; i < n; ++i) CHECK(i < w ? !(rk(*v[i]) < rk(*v[w])) : !(rk(*v[w]) < rk(*v[i])), "nth", "references not partitioned");
        event("nth");
    }
    { eoPop<E> x = p; x.sort(); same(x, "sort"); for (unsigned i = 0; i < n; ++i) CHECK(rk(x[i]) == best[i], "sort", "rank ", i, " of ", n); x.sort(); for (unsigned i = 0; i < n; ++i) CHECK(rk(x[i]) == best[i], "sort", "sorted twice"); }
    { eoPop<E> a = p, b = PopOf<E>()(r, (unsigned)r.below(4)); eoPop<E> a0 = a, b0 = b; a.swap(b); CHECK(idseq(a) == idseq(b0) && idseq(b) == idseq(a0), "swap", ""); }
    CHECK(idseq(p) == idseq(orig), "moved", "a const operation moved individuals");
    for (int k = 0; k < 10; ++k) { const E &a = p[r.below(n)], &b = p[r.below(n)]; CHECK((a < b) == (rk(a) < rk(b)) && (a > b) == (rk(b) < rk(a)), "compare", ""); const auto fa = a.fitness(), fb = b.fitness(); CHECK((fa < fb) == (rank(fa) < rank(fb)) && (fa > fb) == (rank(fb) < rank(fa)) && (fa <= fb) == !(rank(fb) < rank(fa)) && (fa >= fb) == !(rank(fa) < rank(fb)), "compare", "fitness"); event("compare"); }
    struct In : eoInit<E> { int k = 1000000; void operator()(E& e) { e.id = k++; } } in; // appending keeps the old ones and initialises exactly the new ones
    { eoPop<E> x = p; unsigned more = n + (unsigned)r.below(5); x.append(more, in); CHECK(x.size() == more && in.k == (int)(1000000 + more - n), "append", more); for (unsigned i = 0; i < n; ++i) CHECK(x[i].id == p[i].id, "append", "moved"); for (unsigned i = n; i < more; ++i) CHECK(x[i].id >= 1000000, "append", "not initialised"); bool told = n == 0; try { if (n) x.append(n - 1, in); } catch (eoException&) { told = true; } CHECK(told, "append", "smaller size accepted"); x.invalidate(); for (auto& e : x) CHECK(e.invalid(), "invalidate", ""); eoPop<E> y(more, in); CHECK(y.size() == more, "append", "constructor"); }
    state(mix(hvec(idseq(p)), hdbl(best[0].second))); sample(cat(n, " individuals, best ", best[0].second));
}
UNIT(order, 1600, 30000, "sort,shuffle,extremes,nth,compare") {
    switch (idx % 5) { case 0: order<Ind<double>>(r); break; case 1: order<Ind<MinF>>(r); break; case 2: order<Ind<DMax>>(r); break; case 3: order<Ind<DMin>>(r); break; default: order<Ind<int>>(r); }
}

