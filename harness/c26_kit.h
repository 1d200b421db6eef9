// Drives the multi-objective evolutionary algorithms and watches every generation.
#ifndef VERIF_C26_KIT_H
#define VERIF_C26_KIT_H
#include "c26.h"
#include <ga/eoBitOp.h>
#include <functional>
using namespace mob;
namespace {
struct CountTransform : public eoTransform<Bits> {
    eoSGATransform<Bits> t;
    size_t calls = 0;
    CountTransform(eoQuadOp<Bits>& x, double px, eoMonOp<Bits>& m, double pm) : t(x, px, m, pm) {}
    void operator()(eoPop<Bits>& p) { ++calls; t(p); }
};
struct CountOp : public eoGenOp<Bits> {
    eoSGAGenOp<Bits> op;
    size_t calls = 0;
    CountOp(eoQuadOp<Bits>& x, double px, eoMonOp<Bits>& m, double pm) : op(x, px, m, pm) {}
    unsigned max_production() { return op.max_production(); }
    void apply(eoPopulator<Bits>& p) { ++calls; op(p); }
    std::string className() const { return "CountOp"; }
};
struct CountMon : public eoMonOp<Bits> {
    eoBitMutation<Bits> m;
    size_t calls = 0;
    CountMon(double p) : m(p) {}
    bool operator()(Bits& b) { ++calls; return m(b); }
};
enum Kind { NONE, DEPTH, COUNT, GENERATION };
struct Watch {
    World& w;
    const char* name;
    Kind kind;
    bool keepsSize, exact = false, bredFirst = true;
    size_t size;
    std::vector<Seen> prev, uni; // the population before, and everyone competing for the next one
    size_t logged = 0, gens = 0;
    std::function<void()> archive;
    Watch(World& w_, const char* n, Kind k, bool ks, const eoPop<Bits>& p) : w(w_), name(n), kind(k), keepsSize(ks), size(p.size()) {}
    void parents(const eoPop<Bits>& par, const eoPop<Bits>& off) {
        uni.clear();
        for (auto& x : par) uni.push_back(Seen{gene(x), w.of(x)});
        for (auto& x : off) uni.push_back(Seen{gene(x), w.of(x)});
        exact = true;
    }
    // depth (fronts peeled off) or number of dominators
    std::vector<size_t> rank(const std::vector<V>& v) const {
        std::vector<size_t> d(v.size(), 0);
        if (kind == COUNT) { for (size_t i = 0; i < v.size(); ++i) for (auto& u : v) if (w.s.dom(u, v[i])) ++d[i]; return d; }
        std::vector<bool> done(v.size(), false);
        size_t left = v.size();
        for (size_t lvl = 0; left; ++lvl) {
            std::vector<size_t> f;
            for (size_t i = 0; i < v.size(); ++i) if (!done[i]) { bool ok = true; for (size_t j = 0; j < v.size() && ok; ++j) if (!done[j] && w.s.dom(v[j], v[i])) ok = false; if (ok) f.push_back(i); }
            for (size_t i : f) { done[i] = true; d[i] = lvl; --left; }
        }
        return d;
    }
    void generation(const eoPop<Bits>& p) {
        w.right(p, name, 0);
        if (keepsSize) CHECK(p.size() == size, "size", name, ": a population of ", size, " has become one of ", p.size());
        bool first = !gens && prev.empty();
        if (!exact) { uni = prev; for (size_t i = logged; i < w.log.size(); ++i) uni.push_back(w.log[i]); }
        if (keepsSize) {
            std::map<Gene, size_t> have;
            for (auto& e : uni) have[e.g]++;
            for (auto& x : p) {
                auto it = have.find(gene(x));
                CHECK(it != have.end() && (!exact || it->second-- > 0), "stranger", name, ": after generation ", gens, " the population holds an individual that was neither a parent nor an offspring, or twice as often");
            }
            event("membership");
        }
        if (kind == DEPTH || kind == COUNT) {
            std::vector<V> v, kept;
            for (auto& e : uni) v.push_back(e.v);
            for (auto& x : p) kept.push_back(w.of(x));
            std::set<V> ks(kept.begin(), kept.end()), all(v.begin(), v.end());
            if (exact && all.size() == v.size()) {
                auto d = rank(v);
                size_t worst = 0, best = v.size();
                for (size_t i = 0; i < v.size(); ++i) if (ks.count(v[i])) worst = std::max(worst, d[i]); else best = std::min(best, d[i]);
                CHECK(worst <= best, "rank", name, " (", w.s.dirs(), "): after generation ", gens, " an individual of rank ", worst, " was kept and one of rank ", best, " was not");
                event("rank-checked");
                if (best < v.size() && worst < best) event("rank-boundary");
            }
            auto f = w.front(v);
            std::set<V> fs(f.begin(), f.end());
            bool clean = true, complete = true;
            for (auto& x : ks) clean = clean && fs.count(x);
            for (auto& x : fs) complete = complete && ks.count(x);
            CHECK(clean || complete, "front-lost", name, " (", w.s.dirs(), "): after generation ", gens, " a non-dominated individual was lost although a dominated one was kept");
            event("front-checked");
            if (complete && !clean) event("front-complete");
            if (clean && !complete) event("front-crowded");
        }
        if (kind == GENERATION && exact && !first) event("generational");
        prev.clear();
        for (auto& x : p) prev.push_back(Seen{gene(x), w.of(x)});
        logged = w.log.size();
        if (archive) archive();
    }
};
struct PopEval : public eoPopEvalFunc<Bits> {
    Watch& o;
    PopEval(Watch& o_) : o(o_) {}
    void operator()(eoPop<Bits>& par, eoPop<Bits>& off) {
        o.w.right(par, o.name, 0);
        for (auto& x : off) if (x.invalidObjectiveVector()) { o.w.put(x); event("evaluated"); }
        o.parents(par, off);
    }
};
struct Cont : public eoContinue<Bits> {
    Watch& o;
    size_t max;
    Cont(Watch& o_, size_t m) : o(o_), max(m) {}
    bool operator()(const eoPop<Bits>& p) { o.generation(p); event("generation"); return ++o.gens < max; }
    std::string className() const { return "Cont"; }
};
struct Kit {
    Setup s;
    World w;
    eoPop<Bits> pop;
    eoBitMutation<Bits> bits;
    CountMon mut;
    eo1PtBitXover<Bits> one;
    eoUBitXover<Bits> uni;
    bool o;
    eoQuadOp<Bits>& x;
    double px, pm;
    CountOp op;
    CountTransform tr;
    size_t gens;
    Kit(Rand& r, bool large, unsigned hi = 4) : s(r, r.flip(0.1) ? 1 : 2, hi), w(r, s, r.flip() ? (size_t)r.range(2, 8) : (size_t)r.range(16, 40)), bits(0.2), mut(r.flip(0.2) ? 0.0 : 2.0 / (double)w.len), o(r.flip()), x(o ? (eoQuadOp<Bits>&)one : (eoQuadOp<Bits>&)uni), px(r.pick(std::vector<double>{0, 0.5, 1})), pm(r.pick(std::vector<double>{0.3, 1})), op(x, px, mut, pm), tr(x, px, mut, pm), gens((size_t)r.range(1, large ? 3 : 12)) {
        rng.reseed((uint32_t)r.below(1u << 30));
        size_t n = large ? (size_t)r.range(260, 300) : r.flip(0.2) ? (size_t)r.range(1, 3) : (size_t)r.range(4, 24);
        for (size_t i = 0; i < n; ++i) { pop.push_back(w.random(r)); if (i && r.flip(0.1)) pop[i] = pop[i - 1]; }
        if (r.flip(0.3)) for (auto& y : pop) if (r.flip()) { w.put(y); event("evaluated-before"); }
    }
};
template <class A, class... X> std::shared_ptr<A> make(X&&... x) {
    if constexpr (std::is_constructible<A, X&&...>::value) return std::make_shared<A>(std::forward<X>(x)...);
    else return std::shared_ptr<A>();
}
// runs one of the constructors of an algorithm; the rest of the arguments come last
template <class A, class... X> void run(Kit& k, Watch& o, int how, X&&... x) {
    Eval ev(k.w);
    PopEval pe(o);
    Cont c(o, k.gens);
    std::shared_ptr<A> a;
    switch (how) {
    case 0: a = make<A>((unsigned)k.gens, ev, k.x, k.px, k.mut, k.pm, x...); break;
    case 1: a = make<A>((eoContinue<Bits>&)c, (eoEvalFunc<Bits>&)ev, (eoGenOp<Bits>&)k.op, x...); break;
    case 2: a = make<A>((eoContinue<Bits>&)c, (eoPopEvalFunc<Bits>&)pe, (eoGenOp<Bits>&)k.op, x...); break;
    case 3: a = make<A>((eoContinue<Bits>&)c, (eoEvalFunc<Bits>&)ev, (eoTransform<Bits>&)k.tr, x...); break;
    case 4: a = make<A>((eoContinue<Bits>&)c, (eoPopEvalFunc<Bits>&)pe, (eoTransform<Bits>&)k.tr, x...); break;
    case 5: a = make<A>((eoContinue<Bits>&)c, (eoEvalFunc<Bits>&)ev, k.x, k.px, (eoMonOp<Bits>&)k.mut, k.pm, x...); break;
    default: a = make<A>((eoContinue<Bits>&)c, (eoPopEvalFunc<Bits>&)pe, k.x, k.px, (eoMonOp<Bits>&)k.mut, k.pm, x...);
    }
    if (!a) throw std::runtime_error("no such constructor");
    (*a)(k.pop);
    if (how) CHECK(o.gens == k.gens, "generations", o.name, ": ", o.gens, " generations, the criterion allows ", k.gens);
    if (o.gens > 1 || o.bredFirst) {
        if (how == 0 || how > 4) CHECK(k.pm < 1 || k.mut.calls > 0, "operators", o.name, ": the mutation given is never used");
        else if (how < 3) CHECK(k.op.calls > 0, "operators", o.name, ": the operator given is never used");
        else CHECK(k.tr.calls > 0, "operators", o.name, ": the transformation given is never used");
        event("operators-used");
    }
    k.w.right(k.pop, o.name, 0);
    if (o.keepsSize) CHECK(k.pop.size() == o.size, "size", o.name, ": the run ends with ", k.pop.size(), " individuals, it started with ", o.size);
    if (o.archive) o.archive();
    if (how == 0) event("by-generations");
    event("run");
    state(mix(k.w.evals, mix(o.size, hstr(o.name))));
}
}
#endif
