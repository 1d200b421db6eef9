// C01: the fitness carried by an individual is never stale. Shared by the parts.
#ifndef VERIF_C01_H
#define VERIF_C01_H
#include "ops.h"
#include <eoAlgoReset.h>
#include <eoAlgoRestart.h>
#include <eoCellularEasyEA.h>
#include <eoDistribUpdater.h>
#include <eoFastGA.h>
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <eoOneToOneBreeder.h>
#include <eoReduceMergeReduce.h>
#include <eoSimpleEDA.h>
using namespace ops;

// a fitness that tells any two genotypes apart
template <class E> double value(const E& e) {
    u64 h = hvec(geno(e), e.size());
    return (double)(h % 1000003) / 1000.0 + (double)e.size();
}
template <class E> struct HashEval : public eoEvalFunc<E> {
    u64 calls = 0;
    void operator()(E& e) { if (e.invalid()) { ++calls; e.fitness(value(e)); } }
};
template <class E> std::string stale(const eoPop<E>& p) {
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i].invalid()) return cat("individual ", i, " has no fitness");
        if ((double)p[i].fitness() != value(p[i])) return cat("individual ", i, " carries ", (double)p[i].fitness(), " but evaluates to ", value(p[i]), " genotype ", show(geno(p[i])));
    }
    return "";
}
// watches every generation
template <class E> struct Watch : public eoContinue<E> {
    unsigned gen = 0, max;
    size_t size;
    std::string what;
    Watch(unsigned m, size_t s, const std::string& w) : max(m), size(s), what(w) {}
    bool operator()(const eoPop<E>& p) {
        std::string e = stale(p);
        event("generation");
        state(mix(gen, p.size() ? mix(hvec(geno(p[0]), 1), hvec(geno(p.back()), 2)) : 0));
        if (!e.empty()) fail("stale-fitness", cat(what, ", generation ", gen, ": ", e));
        if (p.size() != size) fail("population-size", cat(what, ": population of ", size, " became ", p.size()));
        if (++gen < max) return true;
        gen = 0;
        return false;
    }
    std::string className() const { return "Watch"; }
};
template <class E> E fresh(Set<E>& s, HashEval<E>& ev) { E e; (*s.init)(e); e.invalidate(); ev(e); return e; }

// operators report what they changed
template <class E> void reportCase(Set<E>& s, Rand& r, int times) {
    HashEval<E> ev;
    for (auto& op : s.mon) for (int t = 0; t < times; ++t) {
        E a = fresh(s, ev);
        auto before = full(a);
        bool said = (*op.second)(a);
        event("mutation"); event(("op:" + op.first).c_str());
        state(mix(hvec(before, said), hvec(full(a), 1)));
        CHECK(said || a.invalid() || full(a) == before, "unreported-mutation", op.first, " returned false: ", show(before), " -> ", show(full(a)));
        CHECK(said || full(a) == before || a.invalid() || (double)a.fitness() == value(a), "stale-fitness", op.first);
    }
    for (auto& op : s.quad) for (int t = 0; t < times; ++t) {
        E a = fresh(s, ev), b = r.flip(0.2) ? a : fresh(s, ev);
        auto ba = full(a), bb = full(b);
        bool said = (*op.second)(a, b);
        event("crossover"); event(("op:" + op.first).c_str());
        state(mix(mix(hvec(ba, said), hvec(bb, 2)), mix(hvec(full(a), 3), hvec(full(b), 4))));
        CHECK(said || a.invalid() || full(a) == ba, "unreported-crossover", op.first, " returned false: ", show(ba), " -> ", show(full(a)));
        CHECK(said || b.invalid() || full(b) == bb, "unreported-crossover", op.first, " returned false: ", show(bb), " -> ", show(full(b)));
    }
    for (auto& op : s.bin) for (int t = 0; t < times; ++t) {
        E a = fresh(s, ev), b = r.flip(0.2) ? a : fresh(s, ev);
        auto ba = full(a), bb = full(b);
        bool said = (*op.second)(a, b);
        event("binary"); event(("op:" + op.first).c_str());
        state(mix(mix(hvec(ba, said), hvec(bb, 2)), hvec(full(a), 3)));
        CHECK(said || a.invalid() || full(a) == ba, "unreported-binary", op.first, " returned false: ", show(ba), " + ", show(bb), " -> ", show(full(a)));
        CHECK(full(b) == bb && !b.invalid(), "second-parent-altered", op.first);
    }
}
// wrappers and containers: whatever comes out either has no fitness or the right one
template <class E> eoGenOp<E>& genOp(Set<E>& s, Rand& r, int depth, std::string& d);
template <class E> eoMonOp<E>& monOp(Set<E>& s, Rand& r, std::string& d) {
    if (r.flip(0.25)) {
        auto a = r.pick(s.mon), b = r.pick(s.mon);
        auto& c = s.template own<eoPropCombinedMonOp<E>>(*a.second, r.real(0.1, 1));
        c.add(*b.second, r.real(0.1, 1));
        d += "mon(" + a.first + "|" + b.first + ")";
        return c;
    }
    auto a = r.pick(s.mon);
    d += a.first;
    return *a.second;
}
template <class E> eoQuadOp<E>& quadOp(Set<E>& s, Rand& r, std::string& d) {
    if (r.flip(0.25)) {
        auto a = r.pick(s.quad), b = r.pick(s.quad);
        auto& c = s.template own<eoPropCombinedQuadOp<E>>(*a.second, r.real(0.1, 1));
        c.add(*b.second, r.real(0.1, 1));
        d += "quad(" + a.first + "|" + b.first + ")";
        return c;
    }
    auto a = r.pick(s.quad);
    d += a.first;
    return *a.second;
}
static inline double rate(Rand& r) { return r.pick(std::vector<double>{0.1, 0.5, 0.8, 1.0}); }
template <class E> eoOp<E>& anyOp(Set<E>& s, Rand& r, int depth, std::string& d) {
    switch (r.below(s.bin.empty() ? 3 : 4)) {
    case 0: return monOp(s, r, d);
    case 1: if (!s.quad.empty()) return quadOp(s, r, d); return monOp(s, r, d);
    case 3: {
        auto b = r.pick(s.bin);
        d += b.first;
        if (r.flip()) return *b.second;
        auto b2 = r.pick(s.bin);
        auto& c = s.template own<eoPropCombinedBinOp<E>>(*b.second, r.real(0.1, 1));
        c.add(*b2.second, r.real(0.1, 1));
        d += "|" + b2.first;
        return c; }
    default: if (depth > 0) return genOp(s, r, depth - 1, d); return monOp(s, r, d);
    }
}
template <class E> eoGenOp<E>& genOp(Set<E>& s, Rand& r, int depth, std::string& d) {
    bool hasQuad = !s.quad.empty();
    switch (r.below(hasQuad ? 7 : 5)) {
    case 0: { d += "seq["; auto& c = s.template own<eoSequentialOp<E>>();
        c.add(monOp(s, r, d), 1.0);
        for (int i = (int)r.range(1, 3); i > 0; --i) { d += ","; c.add(anyOp(s, r, depth, d), rate(r)); }
        d += "]"; return c; }
    case 1: { d += "prop["; auto& c = s.template own<eoProportionalOp<E>>();
        for (int i = (int)r.range(1, 3); i > 0; --i) { d += ","; c.add(anyOp(s, r, depth, d), r.real(0.1, 1)); }
        d += "]"; return c; }
    case 2: { d += "mono "; return s.template own<eoMonGenOp<E>>(monOp(s, r, d)); }
    case 3: if (!s.bin.empty()) { auto b = r.pick(s.bin); d += "bin " + b.first; return s.template own<eoBinGenOp<E>>(*b.second); } d += "mono "; return s.template own<eoMonGenOp<E>>(monOp(s, r, d));
    case 4: if (!s.bin.empty()) { auto b = r.pick(s.bin); d += "selbin " + b.first; auto& sel = s.template own<eoRandomSelect<E>>(); return s.template own<eoSelBinGenOp<E>>(*b.second, sel); } d += "mono "; return s.template own<eoMonGenOp<E>>(monOp(s, r, d));
    case 5: { d += "sga "; auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d); return s.template own<eoSGAGenOp<E>>(q, rate(r), m, rate(r)); }
    default: { d += "propga "; auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d); return s.template own<eoPropGAGenOp<E>>(r.real(0, 1), q, r.real(0.1, 1), m, r.real(0.1, 1)); }
    }
}
template <class E> eoSelectOne<E>& sel(Set<E>& s, Rand& r) {
    switch (r.below(4)) {
    case 0: return s.template own<eoDetTournamentSelect<E>>(2u);
    case 1: return s.template own<eoStochTournamentSelect<E>>(0.8);
    case 2: return s.template own<eoSequentialSelect<E>>();
    default: return s.template own<eoRandomSelect<E>>();
    }
}
// atLeast: replacement that takes at least as many offspring as parents
template <class E> eoReplacement<E>& repl(Set<E>& s, Rand& r, bool sameSize, bool many, std::string& d) {
    int k = (int)r.below(sameSize ? 8 : many ? 7 : 6);
    switch (k) {
    case 0: d += " plus"; return s.template own<eoPlusReplacement<E>>();
    case 1: d += " ssga-worse"; return many ? (eoReplacement<E>&)s.template own<eoPlusReplacement<E>>() : s.template own<eoSSGAWorseReplacement<E>>();
    case 2: d += " ssga-det"; return many ? (eoReplacement<E>&)s.template own<eoPlusReplacement<E>>() : s.template own<eoSSGADetTournamentReplacement<E>>(3u);
    case 3: d += " ssga-stoch"; return many ? (eoReplacement<E>&)s.template own<eoPlusReplacement<E>>() : s.template own<eoSSGAStochTournamentReplacement<E>>(0.8);
    case 4: d += " ep"; return s.template own<eoEPReplacement<E>>(3);
    case 5: { d += " weak-plus"; return s.template own<eoWeakElitistReplacement<E>>(s.template own<eoPlusReplacement<E>>()); }
    case 6: d += " comma"; return s.template own<eoCommaReplacement<E>>();
    default: d += " generational"; return s.template own<eoGenerationalReplacement<E>>();
    }
}
template <class E> struct Ring : public eoCellularEasyEA<E> {
    using eoCellularEasyEA<E>::eoCellularEasyEA;
    eoPop<E> neighbours(const eoPop<E>& p, int k) {
        eoPop<E> n;
        n.push_back(p[(k + 1) % p.size()]);
        n.push_back(p[(k + p.size() - 1) % p.size()]);
        return n;
    }
};
template <class E> void runCase(Set<E>& s, Rand& r, unsigned maxGen) {
    HashEval<E> ev;
    unsigned n = (unsigned)r.range(2, 14);
    eoPop<E> pop(n, *s.init);
    for (auto& e : pop) if (r.flip()) ev(e);
    std::string d;
    unsigned gens = (unsigned)r.range(1, (int)maxGen);
    Watch<E> w(gens, n, "");
    eoPopLoopEval<E> pe(ev);
    eoPop<E> off;
    bool hasQuad = !s.quad.empty();
    switch (r.below(hasQuad ? 7 : 3)) {
    case 0: case 1: {
        double x = r.pick(std::vector<double>{0.5, 1.0, 1.0, 2.0});
        d = cat("EasyEA general x", x, " ");
        auto& g = genOp(s, r, 2, d);
        auto& br = s.template own<eoGeneralBreeder<E>>(sel(s, r), g, x);
        auto& rp = repl(s, r, x == 1.0, x > 1.0, d);
        w.what = d; event("alg:easyea");
        for (auto& e : pop) if (e.invalid()) ev(e);
        if (r.flip()) { eoEasyEA<E> a(w, ev, br, rp); a(pop); } else { eoEasyEA<E> a(w, pe, br, rp); a(pop); }
        break; }
    case 2: {
        d = "EasyEA one-to-one ";
        auto& m = monOp(s, r, d);
        eoMonGenOp<E>& g = s.template own<eoMonGenOp<E>>(m);
        auto& br = s.template own<eoOneToOneBreeder<E>>(g, ev, r.real(0, 1));
        for (auto& e : pop) if (e.invalid()) ev(e);
        auto& rp = repl(s, r, true, false, d);
        w.what = d; event("alg:one-to-one");
        eoEasyEA<E> a(w, ev, br, rp); a(pop);
        break; }
    case 3: {
        d = "EasyEA sga-transform ";
        auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d);
        eoTransform<E>* t;
        if (r.flip()) t = &s.template own<eoSGATransform<E>>(q, rate(r), m, rate(r));
        else t = &s.template own<eoDynSGATransform<E>>(q, rate(r), m, rate(r));
        auto& so = sel(s, r);
        auto& many = s.template own<eoSelectPerc<E>>(so, 1.0);
        auto& rp = repl(s, r, true, false, d);
        w.what = d; event("alg:transform");
        for (auto& e : pop) if (e.invalid()) ev(e);
        if (r.flip()) { eoEasyEA<E> a(w, ev, many, *t, rp); a(pop); }
        else { auto& br = s.template own<eoSelectTransform<E>>(many, *t); eoEasyEA<E> a(w, ev, br, rp); a(pop); }
        break; }
    case 4: {
        d = "SGA ";
        auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d);
        for (auto& e : pop) if (e.invalid()) ev(e);
        w.what = d; event("alg:sga");
        eoSGA<E> a(sel(s, r), q, (float)rate(r), m, (float)rate(r), ev, w); a(pop);
        break; }
    case 5: {
        d = "FastGA ";
        auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d);
        for (auto& e : pop) if (e.invalid()) ev(e);
        double os = r.flip() ? 0 : (double)r.range(1, 20);
        auto& rp = repl(s, r, os == 0 || os == n, os > n, d);
        w.what = d; event("alg:fastga");
        auto& s1 = sel(s, r); auto& s2 = s.template own<eoRandomSelect<E>>(); auto& s3 = sel(s, r);
        eoFastGA<E> a(rate(r), s1, q, s2, rate(r), s3, m, pe, rp, w, os); a(pop);
        break; }
    default: {
        d = "cellular ";
        auto& q = quadOp(s, r, d); d += "+"; auto& m = monOp(s, r, d);
        for (auto& e : pop) if (e.invalid()) ev(e);
        w.what = d; event("alg:cellular");
        auto& s1 = s.template own<eoRandomSelect<E>>(); auto& s2 = s.template own<eoBestSelect<E>>(); auto& s3 = s.template own<eoBestSelect<E>>();
        Ring<E> a(w, ev, s1, q, m, s2, s3); a(pop);
        break; }
    }
    std::string e = stale(pop);
    if (!e.empty()) fail("stale-fitness", cat(d, ", at the end: ", e));
}
// breeding with evaluated parents: an offspring with a fitness carries the right one
template <class E> void breedCase(Set<E>& s, Rand& r) {
    HashEval<E> ev;
    unsigned n = (unsigned)r.range(1, 20);
    eoPop<E> pop(n, *s.init), off;
    for (auto& e : pop) ev(e);
    std::string d;
    auto& g = genOp(s, r, 2, d);
    eoGeneralBreeder<E> br(sel(s, r), g, r.pick(std::vector<double>{0.3, 1.0, 1.7, 3.0}));
    for (int k = 0; k < 4; ++k) {
        br(pop, off);
        size_t kept = 0;
        for (auto& o : off) {
            event("offspring");
            if (o.invalid()) continue;
            ++kept;
            CHECK((double)o.fitness() == value(o), "stale-offspring", d, ": offspring carries ", (double)o.fitness(), " evaluates to ", value(o));
        }
        state(mix(hstr(d), mix(off.size(), kept)));
        for (auto& p : pop) CHECK(!p.invalid() && (double)p.fitness() == value(p), "parent-altered", d);
    }
}
#define GEN(NAME, T, FILL) \
    UNIT(report_##NAME, 40, 800, "mutation") { (void)idx; Quiet q; Set<T> s; FILL; reportCase(s, r, 12); } \
    UNIT(breed_##NAME, 150, 4000, "offspring") { (void)idx; Quiet q; Set<T> s; FILL; breedCase(s, r); } \
    UNIT(run_##NAME, 150, 5000, "generation") { (void)idx; Quiet q; Set<T> s; FILL; runCase(s, r, 12); }
#endif
