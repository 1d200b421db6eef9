// Every shipped variation operator, per representation, with random parameters.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include "eoh.h"
#include <es.h>
#include <eoFlOrBinOp.h>
#include <eoFlOrMonOp.h>
#include <eoFlOrQuadOp.h>
#include <eoInt.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoShiftMutation.h>
#include <eoSwapMutation.h>
#include <eoTwoOptMutation.h>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <ga/eoBoolFlip.h>
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeDepthInit.h>
#include <gp/eoParseTreeOp.h>
namespace ops {
using namespace eoh;
struct Own {
    std::vector<std::shared_ptr<void>> keep;
    template <class T, class... A> T& own(A&&... a) {
        auto p = std::make_shared<T>(std::forward<A>(a)...);
        keep.push_back(p);
        return *p;
    }
    ~Own() { while (!keep.empty()) keep.pop_back(); }
};
template <class E> struct Set : public Own {
    std::vector<std::pair<std::string, eoMonOp<E>*>> mon;
    std::vector<std::pair<std::string, eoQuadOp<E>*>> quad;
    std::vector<std::pair<std::string, eoBinOp<E>*>> bin;
    eoInit<E>* init = nullptr;
    template <class T, class... A> void m(const char* n, A&&... a) { mon.emplace_back(n, &this->template own<T>(std::forward<A>(a)...)); }
    template <class T, class... A> void q(const char* n, A&&... a) { quad.emplace_back(n, &this->template own<T>(std::forward<A>(a)...)); }
    template <class T, class... A> void b(const char* n, A&&... a) { bin.emplace_back(n, &this->template own<T>(std::forward<A>(a)...)); }
};
typedef eoBit<double> Bit;
typedef eoReal<double> Real;
typedef eoReal<MinF> RealMin;
typedef eoInt<double> Int;
typedef eoEsSimple<MinF> Es1;
typedef eoEsStdev<double> EsN;
typedef eoEsFull<MinF> EsF;

// genotype of anything as numbers
template <class E> std::vector<double> geno(const E& e) {
    std::vector<double> v;
    for (size_t i = 0; i < e.size(); ++i) v.push_back((double)e[i]);
    return v;
}
// strategy parameters too
inline std::vector<double> full(const Es1& e) { auto v = geno(e); v.push_back(e.stdev); return v; }
inline std::vector<double> full(const EsN& e) { auto v = geno(e); v.insert(v.end(), e.stdevs.begin(), e.stdevs.end()); return v; }
inline std::vector<double> full(const EsF& e) {
    auto v = geno(e);
    v.insert(v.end(), e.stdevs.begin(), e.stdevs.end());
    v.insert(v.end(), e.correlations.begin(), e.correlations.end());
    return v;
}
template <class E> std::vector<double> full(const E& e) { return geno(e); }

// a tree node: value is one of the terminals 'a'.. or an operator; arity 0..3
struct Node {
    int op, ar;
    Node(int o = 'a', int a = 0) : op(o), ar(a) {}
    int arity() const { return ar; }
    void randomize() {}
    int type() const { return 0; }
    int type(int) const { return 0; }
    bool operator==(const Node& n) const { return op == n.op && ar == n.ar; }
    template <class C> void operator()(std::string& res, C args) const {
        res = std::string(1, (char)op);
        if (!ar) return;
        res += "(";
        for (int i = 0; i < ar; ++i) { std::string s; args[i].apply(s); res += (i ? "," : "") + s; }
        res += ")";
    }
};
inline std::ostream& operator<<(std::ostream& o, const Node& n) { return o << (char)n.op << n.ar; }
inline std::istream& operator>>(std::istream& i, Node& n) { char c; int a; if (i >> c >> a) { n.op = c; n.ar = a; } return i; }
typedef eoParseTree<double, Node> Tree;
inline std::string text(const Tree& t) { std::string s; const_cast<Tree&>(t).apply(s); return s; }
inline std::vector<double> geno(const Tree& t) {
    std::vector<double> v;
    for (char c : text(t)) v.push_back(c);
    return v;
}
inline std::vector<double> full(const Tree& e) { return geno(e); }
inline std::vector<Node> nodes(Rand& r, bool ternary) {
    std::vector<Node> v{Node('a', 0), Node('b', 0), Node('N', 1), Node('P', 2), Node('M', 2)};
    if (ternary) v.push_back(Node('T', 3));
    r.shuffle(v);
    return v;
}

// any number of bits from 2
inline void bitOps(Set<Bit>& s, Rand& r, unsigned n) {
    s.init = &s.own<eoInitFixedLength<Bit>>(n, s.own<eoBooleanGenerator<bool>>());
    s.m<eoOneBitFlip<Bit>>("one-bit-flip");
    s.m<eoDetBitFlip<Bit>>("det-bit-flip", (unsigned)r.range(0, 5));
    s.m<eoDetSingleBitFlip<Bit>>("det-single-bit-flip", (unsigned)r.range(0, (int)std::min(n, 6u)));
    s.m<eoBitMutation<Bit>>("bit-mutation", r.pick(std::vector<double>{0, 0.01, 0.3, 1}), false);
    s.m<eoBitMutation<Bit>>("bit-mutation-normalised", r.real(0, 2), true);
    s.m<eoBitInversion<Bit>>("bit-inversion");
    s.m<eoBitNext<Bit>>("bit-next");
    s.m<eoBitPrev<Bit>>("bit-prev");
    s.m<eoStandardBitMutation<Bit>>("standard-bit-mutation", r.flip() ? 0 : r.real(0, 1));
    s.m<eoUniformBitMutation<Bit>>("uniform-bit-mutation");
    s.m<eoConditionalBitMutation<Bit>>("conditional-bit-mutation", r.flip() ? 0 : r.real(0.05, 1));
    s.m<eoShiftedBitMutation<Bit>>("shifted-bit-mutation", r.flip() ? 0 : r.real(0, 1));
    s.m<eoNormalBitMutation<Bit>>("normal-bit-mutation", (double)n / 2, 1.0);
    s.m<eoFastBitMutation<Bit>>("fast-bit-mutation", r.real(1.1, 3));
    std::vector<std::vector<int>> bk{{0, 1}, {1, (int)std::min(n, 4u)}, {(int)n, (int)n}};
    s.m<eoBucketBitMutation<Bit>>("bucket-bit-mutation", bk, std::vector<double>{1, 2, 0.5});
    s.q<eo1PtBitXover<Bit>>("one-point");
    s.q<eoUBitXover<Bit>>("uniform", r.real(0.1, 0.9));
    s.q<eoNPtsBitXover<Bit>>("n-points", (unsigned)r.range(1, 6));
    unsigned g = (unsigned)r.range(1, (int)std::min(n, 4u));
    s.q<eoBitGxOver<Bit>>("gene", g, (unsigned)r.range(1, 4));
}
template <class E> void realOps(Set<E>& s, Rand& r, unsigned n, double lo, double hi) {
    eoRealVectorBounds& b = s.template own<eoRealVectorBounds>(n, lo, hi);
    s.init = &s.template own<eoEsChromInit<E>>(b);
    double pc = r.pick(std::vector<double>{0, 0.2, 1});
    s.template m<eoUniformMutation<E>>("uniform-mutation-bounded", b, r.real(0.01, 2), pc);
    s.template m<eoUniformMutation<E>>("uniform-mutation", r.real(0.01, 2), pc);
    s.template m<eoDetUniformMutation<E>>("det-uniform-mutation-bounded", b, r.real(0.01, 2), (unsigned)r.range(1, 3));
    s.template m<eoDetUniformMutation<E>>("det-uniform-mutation", r.real(0.01, 2), (unsigned)r.range(1, 3));
    s.template m<eoNormalVecMutation<E>>("normal-vec-mutation-bounded", b, r.real(0.01, 2), pc);
    s.template m<eoNormalMutation<E>>("normal-mutation-bounded", b, s.template own<double>(r.real(0.01, 5)), pc);
    s.template m<eoNormalMutation<E>>("normal-mutation", s.template own<double>(r.real(0.01, 5)), pc);
    s.template q<eoSegmentCrossover<E>>("segment-bounded", b, r.flip() ? 0 : r.real(0, 1));
    s.template q<eoSegmentCrossover<E>>("segment", r.flip() ? 0 : r.real(0, 1));
    s.template q<eoHypercubeCrossover<E>>("hypercube-bounded", b, r.flip() ? 0 : r.real(0, 1));
    s.template q<eoHypercubeCrossover<E>>("hypercube", r.flip() ? 0 : r.real(0, 1));
    s.template q<eoRealUXover<E>>("real-uniform", (float)r.real(0.1, 0.9));
    s.template q<eoSBXCrossover<E>>("sbx-bounded", b, r.real(0.5, 5));
}
template <class E> void esOps(Set<E>& s, Rand& r, unsigned n, double lo, double hi) {
    Quiet quiet;
    eoRealVectorBounds& b = s.template own<eoRealVectorBounds>(n, lo, hi);
    s.init = &s.template own<eoEsChromInit<E>>(b, r.real(0.05, 2));
    std::vector<char*> av{const_cast<char*>("x")};
    eoParser& p = s.template own<eoParser>(1u, av.data());
    eoEsMutationInit& mi = s.template own<eoEsMutationInit>(p);
    s.template m<eoEsMutate<E>>("es-mutate", mi, b);
    eoBinOp<double>& ex = s.template own<eoDoubleExchange>();
    eoBinOp<double>& in = s.template own<eoDoubleIntermediate>();
    s.template b<eoEsStandardXover<E>>("es-exchange", ex, ex);
    s.template b<eoEsStandardXover<E>>("es-mixed", ex, in);
    s.template b<eoEsStandardXover<E>>("es-intermediate", in, ex);
}
inline void permOps(Set<Int>& s, Rand& r, unsigned n) {
    s.init = &s.own<eoInitPermutation<Int>>(n, 0u);
    s.m<eoSwapMutation<Int>>("swap", (unsigned)r.range(1, 3));
    s.m<eoShiftMutation<Int>>("shift");
    s.m<eoTwoOptMutation<Int>>("two-opt");
    s.q<eoOrderXover<Int>>("order");
    s.q<eoPartiallyMappedXover<Int>>("pmx");
}
struct RoundUp : public eoMonOp<size_t> { bool operator()(size_t& a) { if (a % 2) return false; ++a; return true; } };
struct Exch : public eoQuadOp<size_t> { bool operator()(size_t& a, size_t& b) { if (a == b) return false; std::swap(a, b); return true; } };
struct Take : public eoBinOp<size_t> { bool operator()(size_t& a, const size_t& b) { if (a == b) return false; a = b; return true; } };
struct AtomInit : public eoInit<size_t> { int k; AtomInit(int x) : k(x) {} void operator()(size_t& a) { a = eo::rng.random(k + 1); } };
// integers in [0,k] of fixed length
inline void intOps(Set<Int>& s, Rand& r, unsigned n, int k) {
    eoUniformGenerator<size_t>& g = s.own<eoUniformGenerator<size_t>>((size_t)0, (size_t)(k + 1));
    s.init = &s.own<eoInitFixedLength<Int>>(n, g);
    s.m<eoFlOrAllMutation<Int>>("all-atoms", s.own<RoundUp>(), r.pick(std::vector<double>{0, 0.4, 1}));
    s.m<eoFlOrKMutation<Int>>("k-atoms", s.own<RoundUp>(), (unsigned)r.range(1, 3));
    s.q<eoFlOrAllAtomQuadOp<Int>>("all-atoms-quad", s.own<Exch>(), r.pick(std::vector<double>{0, 0.4, 1}));
    s.q<eoInnerExchangeQuadOp<Int>>("inner-exchange", s.own<Exch>(), (float)r.real(0, 1));
    s.q<eoFlOrKAtomQuadOp<Int>>("k-atoms-quad", s.own<Exch>(), (unsigned)r.range(1, 3));
    s.q<eoFlOrUniformQuadOp<Int>>("fl-uniform-quad", r.real(0, 1));
    s.q<eoFlOr1ptQuadOp<Int>>("fl-one-point-quad");
    s.b<eoFlOrAllAtomBinOp<Int>>("all-atoms-bin", s.own<Take>(), (float)r.real(0, 1));
    s.b<eoFlOrKAtomBinOp<Int>>("k-atoms-bin", s.own<Take>(), (unsigned)r.range(1, 3));
    s.b<eoFlOrUniformBinOp<Int>>("fl-uniform-bin", r.real(0, 1));
    s.b<eoFlOr1ptBinOp<Int>>("fl-one-point-bin");
    s.m<eoSwapMutation<Int>>("swap", (unsigned)r.range(1, 3));
    s.m<eoShiftMutation<Int>>("shift");
    s.m<eoTwoOptMutation<Int>>("two-opt");
    eoIntBounds& ib = s.own<eoIntInterval>(0, k);
    eoMonOp<Real>& rm = s.own<eoNormalMutation<Real>>(s.own<double>(r.real(0.2, 3)), r.pick(std::vector<double>{0, 0.3, 1}));
    typedef eoRealToIntMonOp<Int, Real> RM;
    s.m<RM>("real-to-int-mon", rm, ib, r.flip() ? RM::truncate : RM::folds);
    eoQuadOp<Real>& rq = s.own<eoHypercubeCrossover<Real>>(0.2);
    typedef eoRealToIntQuadOp<Int, Real> RQ;
    s.q<RQ>("real-to-int-quad", rq, ib, r.flip() ? RQ::truncate : RQ::folds);
}
// integers of variable length lo..hi
inline void vlOps(Set<Int>& s, Rand& r, unsigned lo, unsigned hi, int k) {
    eoInit<size_t>& at = s.own<AtomInit>(k);
    s.init = &s.own<eoInitVariableLength<Int>>(lo, hi + 1, at);
    s.m<eoVlAddMutation<Int>>("add", hi, at);
    s.m<eoVlDelMutation<Int>>("del", lo);
    s.m<eoFlOrAllMutation<Int>>("all-atoms", s.own<RoundUp>(), r.pick(std::vector<double>{0, 0.4, 1}));
    s.q<eoVlAtomExchangeQuadOp<Int>>("atom-exchange", lo, hi, s.own<eoUniformAtomExchange<size_t>>(r.real(0.2, 0.8)));
    s.q<eoVlUniformQuadOp<Int>>("vl-uniform-quad", lo, hi, r.real(0.2, 0.8));
    s.b<eoVlUniformBinOp<Int>>("vl-uniform-bin", lo, hi, r.real(0.2, 0.8));
    s.q<eoInnerExchangeQuadOp<Int>>("inner-exchange", s.own<Exch>(), (float)r.real(0, 1));
}
inline void treeOps(Set<Tree>& s, Rand& r, unsigned maxSize) {
    std::vector<Node>& nd = s.own<std::vector<Node>>(nodes(r, r.flip()));
    eoInit<Tree>& in = s.own<eoParseTreeDepthInit<double, Node>>((unsigned)r.range(2, 5), nd, r.flip(), r.flip());
    s.init = &in;
    s.q<eoSubtreeXOver<double, Node>>("subtree-xover", maxSize);
    s.m<eoBranchMutation<double, Node>>("branch", in, maxSize);
    s.m<eoPointMutation<double, Node>>("point", nd);
    s.m<eoExpansionMutation<double, Node>>("expansion", in, maxSize);
    s.m<eoCollapseSubtreeMutation<double, Node>>("collapse", in, maxSize);
    s.m<eoHoistMutation<double, Node>>("hoist");
}
} // namespace ops
#endif
