// A bit-string problem with several objectives, and the monitors that watch algorithms solve it.
#ifndef VERIF_C26_H
#define VERIF_C26_H
#include "c24.h"
#include <memory>
namespace mob {
typedef moeoBitVector<OV> Bits;
typedef std::vector<bool> Gene;
inline Gene gene(const Bits& b) { return Gene(b.begin(), b.end()); }
struct Seen { Gene g; V v; };
struct World {
    const Setup& s;
    size_t len;
    std::vector<std::vector<int>> w;
    bool coarse;
    size_t evals = 0;
    std::vector<Seen> log; // everything evaluated
    mutable std::vector<V> best; // the non-dominated part of the first upTo entries
    mutable size_t upTo = 0;
    World(Rand& r, const Setup& s_, size_t l) : s(s_), len(l), coarse(r.flip()) {
        for (unsigned i = 0; i < s.n; ++i) { w.emplace_back(); for (size_t k = 0; k <= len; ++k) w.back().push_back((int)(coarse ? r.range(-2, 2) : r.range(-40, 40))); }
    }
    template <class B> V of(const B& b) const {
        V v;
        for (unsigned i = 0; i < s.n; ++i) {
            long t = 0;
            for (size_t k = 0; k < b.size(); ++k) if (b[k]) t += w[i][k] + (k && b[k - 1] ? w[i][len] : 0);
            v.push_back((double)t);
        }
        return v;
    }
    Bits random(Rand& r) const { Bits b; b.resize(len); for (size_t k = 0; k < len; ++k) b[k] = r.flip(); return b; }
    OV vec(const V& v) const { OV o; for (unsigned i = 0; i < s.n; ++i) o[i] = v[i]; return o; }
    void put(Bits& b) { ++evals; V v = of(b); b.objectiveVector(vec(v)); log.push_back(Seen{gene(b), v}); }
    // an individual carries the objective vector of what it is
    void right(const Bits& b, const char* where) const {
        CHECK(!b.invalidObjectiveVector(), "objective-invalid", where, ": an individual has no objective vector");
        CHECK(b.size() == len, "genotype-size", where, ": a bit string of length ", len, " has become one of length ", b.size());
        V v = plain(b.objectiveVector());
        CHECK(v == of(b), "objective-wrong", where, ": objective vector ", show(v), ", the individual is worth ", show(of(b)));
        event("individual-checked");
    }
    template <class P> void right(const P& p, const char* where, int) const { for (size_t i = 0; i < p.size(); ++i) right(p[i], where); }
    // non-dominated among the values of a log
    std::vector<V> front(const std::vector<V>& all) const {
        std::set<V> uniq(all.begin(), all.end());
        std::vector<V> f;
        for (auto& v : uniq) { bool ok = true; for (auto& u : uniq) if (s.dom(u, v)) { ok = false; break; } if (ok) f.push_back(v); }
        return f;
    }
    // the archive is the set of non-dominated vectors of everything evaluated
    template <class A> void holds(const A& arch, const char* where) const {
        right(arch, where, 0);
        std::vector<V> have;
        for (size_t i = 0; i < arch.size(); ++i) have.push_back(plain(arch[i].objectiveVector()));
        std::sort(have.begin(), have.end());
        for (; upTo < log.size(); ++upTo) {
            const V& v = log[upTo].v;
            bool in = true;
            for (auto& u : best) if (u == v || s.dom(u, v)) { in = false; break; }
            if (!in) continue;
            best.erase(std::remove_if(best.begin(), best.end(), [&](const V& u) { return s.dom(v, u); }), best.end());
            best.push_back(v);
        }
        auto want = best;
        std::sort(want.begin(), want.end());
        CHECK(have == want, "archive", where, " (", s.dirs(), "): after ", log.size(), " evaluations the archive holds ", have.size(), " vectors, ", want.size(), " are non-dominated");
        event("archive-checked");
    }
};
struct Eval : public eoEvalFunc<Bits> {
    World& w;
    Eval(World& w_) : w(w_) {}
    void operator()(Bits& b) { w.put(b); event("evaluated"); }
};
} // namespace mob
#endif
