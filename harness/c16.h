// C16: program trees. Included twice (pool allocators, standard allocators); NS is the namespace.
#include "mon.h"
#include <eo>
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeDepthInit.h>
#include <gp/eoParseTreeOp.h>
#include <gp/eoStParseTreeOp.h>
#include <gp/eoStParseTreeDepthInit.h>
#include <sstream>
#include <set>
using namespace mon;
namespace NS {
// one character per node; 0 = number, 1 = truth value
inline const char* sig(char c) {
    switch (c) {
    case 'N': return "00"; case 'P': return "000"; case 'M': return "000"; case 'T': return "0000"; case 'U': return "0000";
    case 'Q': return "00000"; case 'V': return "000000"; case 'L': return "100"; case 'I': return "0100"; case 'X': return "11";
    case 'A': return "111"; case 't': case 'f': return "1"; default: return "0";
    }
}
struct TN {
    static long live;
    static long randomized;
    char c;
    TN(char k = 'a') : c(k) { ++live; }
    TN(const TN& o) : c(o.c) { ++live; }
    TN& operator=(const TN& o) { c = o.c; return *this; }
    ~TN() { --live; }
    int arity() const { return (int)strlen(sig(c)) - 1; }
    int type() const { return sig(c)[0] - '0'; }
    int type(int i) const { return sig(c)[i + 1] - '0'; }
    void randomize() { ++randomized; }
    bool operator==(const TN& o) const { return c == o.c; }
    template <class C> void operator()(std::string& res, C args) const {
        res = std::string(1, c);
        for (int i = 0; i < arity(); ++i) { std::string s; args[i].apply(s); res += s; }
    }
};
long TN::live = 0;
long TN::randomized = 0;
inline std::ostream& operator<<(std::ostream& o, const TN& n) { return o << n.c; }
inline std::istream& operator>>(std::istream& i, TN& n) { return i >> n.c; }
typedef eoParseTree<double, TN> Tree;
typedef Tree::Subtree Sub;

// the tree as text in prefix order: a subtree is a contiguous piece
inline void prefix(const Sub& s, std::string& out) {
    out += (*s).c;
    for (int i = 0; i < s.arity(); ++i) prefix(s[i], out);
}
inline std::string text(const Tree& t) { std::string s; prefix(t.root(), s); return s; }
inline size_t span(const std::string& s, size_t at) {
    size_t need = 1, p = at;
    while (need) { need += strlen(sig(s[p])) - 1; --need; ++p; }
    return p - at;
}
inline bool whole(const std::string& s) {
    long need = 1;
    for (size_t i = 0; i < s.size(); ++i) { if (need <= 0) return false; need += (long)strlen(sig(s[i])) - 2; }
    return need == 0;
}
// type of every argument agrees
inline size_t typedAt(const std::string& s, size_t at, bool& ok) {
    const char* g = sig(s[at]);
    size_t p = at + 1;
    for (size_t i = 1; g[i]; ++i) { if (sig(s[p])[0] != g[i]) ok = false; p = typedAt(s, p, ok); }
    return p;
}
inline bool typed(const std::string& s) { bool ok = true; typedAt(s, 0, ok); return ok; }
inline size_t depthAt(const std::string& s, size_t& p) {
    size_t a = strlen(sig(s[p])) - 1, d = 0;
    ++p;
    while (a--) d = std::max(d, depthAt(s, p));
    return d + 1;
}
inline size_t depthOf(const std::string& s) { size_t p = 0; return depthAt(s, p); }
struct Meas { size_t size, depth, cum; };
// recorded sizes, depths, cumulative sizes, parents at every node
inline Meas audit(const Sub& s, const Sub* parent, bool top, const char* where, const std::string& ctx) {
    Meas m{1, 0, 0};
    for (int i = 0; i < s.arity(); ++i) {
        Meas k = audit(s[i], &s, false, where, ctx);
        m.size += k.size; m.cum += k.cum; m.depth = std::max(m.depth, k.depth);
    }
    m.depth++; m.cum += m.size;
    CHECK(s.size() == m.size, "tree-size", where, ": a node records size ", s.size(), " but spans ", m.size, " nodes; ", ctx);
    CHECK(s.depth() == m.depth, "tree-depth", where, ": a node records depth ", s.depth(), " instead of ", m.depth, "; ", ctx);
    CHECK(s.cumulative_size() == m.cum, "tree-cumulative", where, ": cumulative size ", s.cumulative_size(), " instead of ", m.cum, "; ", ctx);
    CHECK(s.get_parent() == parent, "tree-parent", where, ": a node points to a wrong parent; ", ctx);
    (void)top;
    return m;
}
inline void postfix(const Sub& s, std::vector<const Sub*>& v) {
    for (int i = s.arity() - 1; i >= 0; --i) postfix(s[i], v);
    v.push_back(&s);
}
inline void valid(const Tree& t, const char* where, const std::string& ctx) {
    audit(t.root(), nullptr, true, where, ctx);
    CHECK(t.valid(), "tree-pending", where, ": subtrees left over; ", ctx);
    CHECK(t.size() == t.root().size() && t.depth() == t.root().depth() && !t.empty(), "tree-size", where, ": tree and root disagree; ", ctx);
    event("audited");
}
inline void order(Tree& t, const char* where) {
    std::vector<const Sub*> v;
    postfix(t.root(), v);
    std::string w;
    for (auto p : v) w += (**p).c;
    size_t i = 0;
    for (Tree::iterator it = t.begin(); it != t.end(); ++it, ++i)
        if (!(i < v.size() && &*it == v[i])) { fail("tree-iteration", cat(where, ": iteration leaves the order at place ", i)); return; }
    CHECK(i == v.size(), "tree-iteration", where, ": iteration visits ", i, " of ", v.size());
    const Tree& ct = t;
    i = 0;
    for (Tree::const_iterator it = ct.begin(); it != ct.end(); it++, ++i)
        if (!(i < v.size() && &*it == v[i])) { fail("tree-iteration", cat(where, ": const iteration leaves the order at place ", i)); return; }
    std::string e, ce;
    for (auto it = t.ebegin(); it != t.eend(); ++it) e += (*it).c;
    for (auto it = ct.ebegin(); it != ct.eend(); ++it) ce += it->c;
    CHECK(e == w && ce == w, "tree-iteration", where, ": node iteration gives ", e, " and ", ce, " instead of ", w);
    for (i = 0; i < v.size(); ++i) CHECK(&ct[i] == v[i] && &t[i] == v[i], "tree-index", where, ": node ", i, " is another one");
    // cumulative selection: node of size k owns k of the values
    if (v.size() < 200) {
        std::map<const Sub*, size_t> c;
        for (size_t k = 0; k < t.root().cumulative_size(); ++k) c[&ct.root().select_cumulative(k)]++;
        for (auto p : v) CHECK(c[p] == p->size(), "tree-cumulative", where, ": a node of size ", p->size(), " is selected ", c[p], " times");
    }
    std::vector<Sub*> found;
    struct IsLeaf { bool operator()(const TN& n) const { return n.arity() == 0; } } leaf;
    t.find_nodes(found, leaf);
    std::vector<const Sub*> cfound;
    ct.root().find_nodes(cfound, leaf);
    size_t leaves = 0;
    for (auto p : v) leaves += p->arity() == 0;
    CHECK(found.size() == leaves && cfound.size() == leaves && std::set<Sub*>(found.begin(), found.end()).size() == leaves, "tree-find", where, ": ", found.size(), " leaves found of ", leaves);
    std::string ap;
    ct.apply(ap);
    CHECK(ap == text(t), "tree-apply", where, ": applying gives ", ap, " for ", text(t));
    event("walked");
}
inline std::string randText(Rand& r, const std::string& set, int type, int budget) {
    std::string leaf, any;
    for (char c : set) if (sig(c)[0] - '0' == type) { any += c; if (!sig(c)[1]) leaf += c; }
    char c = budget <= 1 || r.flip(0.15) ? r.pick(std::vector<char>(leaf.begin(), leaf.end())) : r.pick(std::vector<char>(any.begin(), any.end()));
    std::string s(1, c);
    for (const char* g = sig(c) + 1; *g; ++g) s += randText(r, set, *g - '0', budget - 1);
    return s;
}
// building: arguments come last first in sequence order
inline void sequence(const std::string& s, size_t at, std::vector<TN>& v) {
    size_t n = strlen(sig(s[at])) - 1, p = at + 1;
    std::vector<size_t> kid;
    for (size_t i = 0; i < n; ++i) { kid.push_back(p); p += span(s, p); }
    for (size_t i = n; i-- > 0;) sequence(s, kid[i], v);
    v.push_back(TN(s[at]));
}
inline Tree build(const std::string& s) {
    std::vector<TN> v;
    sequence(s, 0, v);
    return Tree(parse_tree<TN>(v.begin(), v.end()));
}
inline std::string swapIn(const std::string& s, size_t at, const std::string& piece) { return s.substr(0, at) + piece + s.substr(at + span(s, at)); }
// index of the node whose prefix position is p
inline std::vector<size_t> positions(const std::string& s) { // sequence index -> prefix position
    std::vector<size_t> out;
    std::function<void(size_t)> go = [&](size_t at) {
        size_t n = strlen(sig(s[at])) - 1, p = at + 1;
        std::vector<size_t> kid;
        for (size_t i = 0; i < n; ++i) { kid.push_back(p); p += span(s, p); }
        for (size_t i = n; i-- > 0;) go(kid[i]);
        out.push_back(at);
    };
    go(0);
    return out;
}
inline bool isPieceOf(const std::string& piece, const std::string& s) {
    for (size_t i = 0; i + piece.size() <= s.size(); ++i) if (s.compare(i, piece.size(), piece) == 0 && span(s, i) == piece.size()) return true;
    return false;
}
// nodes the tree initialiser may use
inline std::vector<TN> nodeSet(Rand& r, std::string& names) {
    static const std::vector<std::string> sets{"aNP", "abPM", "abcdNPMT", "aT", "abQ", "aNPTQV", "abcNV", "aN", "abTU"};
    names = r.pick(sets);
    std::vector<char> c(names.begin(), names.end());
    r.shuffle(c);
    return std::vector<TN>(c.begin(), c.end());
}
struct RecInit : public eoInit<Tree> {
    eoInit<Tree>& in;
    std::vector<std::string> made;
    RecInit(eoInit<Tree>& i) : in(i) {}
    void operator()(Tree& t) { in(t); made.push_back(text(t)); }
};
inline std::string pruned(std::string s, size_t max) {
    while (max >= 1 && s.size() > max) s = s.substr(1, span(s, 1));
    return s;
}
inline size_t leavesOff(const std::string& s, size_t want) { // leaves not at the wanted depth
    size_t bad = 0;
    std::function<size_t(size_t, size_t)> go = [&](size_t p, size_t d) {
        size_t a = strlen(sig(s[p])) - 1;
        if (!a && d != want) ++bad;
        size_t q = p + 1;
        while (a--) q = go(q, d + 1);
        return q;
    };
    go(0, 1);
    return bad;
}

inline void structureCase(Rand& r) {
    long before = TN::live;
    {
        std::string set = "abcNPMTQV";
        std::vector<Tree> t;
        std::vector<std::string> m;
        for (int i = 0; i < 3; ++i) {
            std::string s = randText(r, set, 0, r.range(1, 6));
            if (s.size() > 150) s = "Pab";
            t.push_back(build(s)); m.push_back(s);
        }
        for (int step = 0; step < 40; ++step) {
            int a = (int)r.below(3), b = (int)r.below(3);
            std::vector<size_t> pa = positions(m[a]), pb = positions(m[b]);
            size_t i = r.below(pa.size()), j = r.below(pb.size());
            std::string ctx = cat("step ", step, " tree ", m[a], " other ", m[b], " node ", i, " from ", j);
            std::string sj = m[b].substr(pb[j], span(m[b], pb[j]));
            const char* what = "";
            switch (r.below(11)) {
            case 0: case 1: // subtree from any tree, the same one too
                what = a == b ? "assigning a subtree of the tree itself" : "assigning a subtree";
                t[a][i] = t[b][j];
                m[a] = swapIn(m[a], pa[i], sj);
                event(a == b ? "assign_self" : "assign_other");
                break;
            case 2: { // node of the same arity
                what = "replacing a node";
                char old = m[a][pa[i]];
                std::string same;
                for (char c : set) if (strlen(sig(c)) == strlen(sig(old))) same += c;
                char c = r.pick(std::vector<char>(same.begin(), same.end()));
                if (r.flip()) t[a][i] = TN(c); else *t[a][i] = TN(c);
                m[a][pa[i]] = c;
                break;
            }
            case 3: { // a leaf anywhere
                what = "replacing a subtree by a leaf";
                t[a][i] = TN('b');
                m[a] = swapIn(m[a], pa[i], "b");
                event("to_leaf");
                break;
            }
            case 4: what = "copying a tree"; t[a] = t[b]; m[a] = m[b]; break;
            case 5: { what = "copying a tree"; Tree c(t[b]); valid(c, what, ctx); CHECK(c == t[b] && !(c != t[b]), "tree-copy", "a copy differs: ", m[b]); t[a] = c; m[a] = m[b]; break; }
            case 6: what = "swapping trees"; t[a].swap(t[b]); std::swap(m[a], m[b]); event("swap"); break;
            case 7: { what = "a tree from a subtree"; Tree c(t[b][j]); t[a] = c; m[a] = sj; break; }
            case 8: what = "root of a subtree"; t[a].root() = t[b][j]; m[a] = sj; break;
            case 9: { // postfix construction
                what = "building by pushing";
                std::vector<TN> v;
                sequence(m[b], 0, v);
                Tree c;
                c.clear();
                CHECK(c.empty() && c.size() == 0, "tree-clear", "a cleared tree has size ", c.size());
                for (auto& n : v) c.push_back(n);
                t[a] = c; m[a] = m[b];
                event("pushed");
                break;
            }
            case 10: { // subtrees of different trees change places
                if (a == b) continue;
                what = "swapping subtrees";
                std::string si = m[a].substr(pa[i], span(m[a], pa[i]));
                t[a][i].swap(t[b][j]);
                m[a] = swapIn(m[a], pa[i], sj); m[b] = swapIn(m[b], pb[j], si);
                event("swap_subtrees");
                valid(t[b], what, ctx);
                break;
            }
            }
            CHECK(text(t[a]) == m[a], "tree-structure", what, ": got ", text(t[a]), " instead of ", m[a], "; ", ctx);
            CHECK(text(t[b]) == m[b], "tree-structure", what, " changes the other tree to ", text(t[b]), "; ", ctx);
            valid(t[a], what, ctx);
            order(t[a], what);
            CHECK((t[a] == t[b]) == (m[a] == m[b]) && (t[a] != t[b]) == (m[a] != m[b]), "tree-equality", m[a], " and ", m[b]);
            state(hstr(m[a]));
            if (m[a].size() > 200) { t[a] = build("a"); m[a] = "a"; }
        }
    }
    CHECK(TN::live == before, "tree-leak", TN::live - before, " nodes alive after their trees are gone");
}
inline void roundCase(Rand& r) {
    long before = TN::live;
    {
        std::string s = randText(r, "abcNPMTQVLIXAtf", (int)r.below(2), r.range(1, 7));
        Tree t = build(s);
        bool inv = r.flip(0.3);
        if (!inv) t.fitness(r.range(-100, 100) / 4.0);
        std::stringstream o;
        o << t;
        Tree u = build(randText(r, "abP", 0, 3));
        u.fitness(7);
        o >> u;
        event("read_back");
        CHECK(text(u) == s && u == t, "tree-read", "printed ", s, ", read ", text(u));
        CHECK(u.invalid() == inv && (inv || u.fitness() == t.fitness()), "tree-read-fitness", "the fitness is not read back; ", o.str());
        valid(u, "reading", s);
        if (s.size() < 300) order(u, "reading");
        std::stringstream p;
        p << u;
        CHECK(p.str() == o.str(), "tree-print", "printed ", o.str(), " then ", p.str());
        state(hstr(s));
        eoPop<Tree> pop;
        for (int i = 0; i < 4; ++i) pop.push_back(build(randText(r, "abNPT", 0, 4)));
        std::stringstream q;
        q << pop;
        eoPop<Tree> back;
        q >> back;
        CHECK(back.size() == pop.size(), "tree-read", "a population of ", pop.size(), " is read as ", back.size());
        for (size_t i = 0; i < std::min(back.size(), pop.size()); ++i) CHECK(text(back[i]) == text(pop[i]), "tree-read", "member ", i);
    }
    CHECK(TN::live == before, "tree-leak", TN::live - before, " nodes alive after their trees are gone");
}
inline void initCase(Rand& r) {
    std::string names;
    std::vector<TN> nd = nodeSet(r, names);
    int maxb = names.find_first_of("QV") != std::string::npos ? 4 : names.find_first_of("TU") != std::string::npos ? 5 : 7;
    unsigned depth = (unsigned)r.range(1, maxb);
    int kind = (int)r.below(3);
    eoParseTreeDepthInit<double, TN> init(depth, nd, kind != 0, kind == 2);
    Tree t = build("PaNb");
    t.fitness(3);
    size_t deepest = 0;
    std::set<size_t> fullDepths;
    int total = kind == 2 ? 4 * (int)depth : 6;
    for (int k = 0; k < total; ++k) {
        init(t);
        std::string s = text(t);
        event("initialised");
        CHECK(whole(s), "init-malformed", s);
        CHECK(s.find_first_not_of(names) == std::string::npos, "init-foreign-node", s, " from ", names);
        CHECK(depthOf(s) <= depth, "init-depth", "depth ", depthOf(s), " over ", depth, ": ", s);
        deepest = std::max(deepest, depthOf(s));
        if (kind == 0) { CHECK(leavesOff(s, depth) == 0, "init-full", "a full tree of depth ", depth, " has a branch of another depth: ", s); event("full_tree"); }
        if (kind == 2 && !leavesOff(s, depthOf(s))) fullDepths.insert(depthOf(s));
        valid(t, "initialising", s);
        state(hstr(s));
    }
    if (kind == 2) {
        // half of the trees are full ones, of every depth of the ramp in turn
        for (unsigned d = 2; d <= depth; ++d) CHECK(fullDepths.count(d), "init-ramped", "no full tree of depth ", d, " among ", total, " of a ramp up to ", depth);
        event("ramped");
    }
}
inline void rampedPop(Rand& r) {
    std::string names;
    std::vector<TN> nd = nodeSet(r, names);
    unsigned depth = (unsigned)r.range(2, 4), n = (unsigned)r.range(0, 40);
    eoPop<Tree> pop;
    if (r.flip()) pop.push_back(build("a"));
    std::stringstream sink;
    std::streambuf* old = std::cerr.rdbuf(sink.rdbuf());
    eoInitRampedHalfAndHalf<double, TN>(pop, n, depth, nd);
    std::cerr.rdbuf(old);
    event("ramped_pop");
    CHECK(pop.size() == n, "init-ramped-size", pop.size(), " trees instead of ", n);
    for (auto& t : pop) { std::string s = text(t); CHECK(whole(s) && depthOf(s) <= depth && s.find_first_not_of(names) == std::string::npos, "init-ramped", s, " depth ", depth); valid(t, "ramped", s); }
}
inline void opCase(Rand& r) {
    long before = TN::live;
    {
        std::string names;
        std::vector<TN> nd = nodeSet(r, names);
        eoParseTreeDepthInit<double, TN> raw((unsigned)r.range(2, 4), nd, r.flip(0.7), false);
        RecInit init(raw);
        size_t max = r.flip(0.2) ? 0 : (size_t)r.range(1, 60);
        eoSubtreeXOver<double, TN> xo((unsigned)max);
        eoBranchMutation<double, TN> branch(init, (unsigned)max);
        eoPointMutation<double, TN> point(nd);
        eoExpansionMutation<double, TN> expand(init, (unsigned)max);
        eoCollapseSubtreeMutation<double, TN> collapse(init, (unsigned)max);
        eoHoistMutation<double, TN> hoist;
        std::vector<Tree> t;
        for (int i = 0; i < 4; ++i) {
            std::string s = randText(r, names, 0, r.range(1, 4));
            if (max) s = pruned(s, max);
            t.push_back(build(s));
        }
        for (int step = 0; step < 30; ++step) {
            int a = (int)r.below(4), b = (int)((a + 1 + r.below(3)) % 4);
            std::string A = text(t[a]), B = text(t[b]);
            if (A.size() > 120) { t[a] = build(A = "a"); }
            if (B.size() > 120) { t[b] = build(B = "a"); }
            if (max && r.flip(0.1)) { // an individual from elsewhere, beyond the limit
                std::string s = randText(r, names, 0, 4);
                if (s.size() > max && s.size() <= 120) { t[a] = build(A = s); event("over_limit"); }
            }
            t[a].fitness(1); t[b].fitness(2);
            init.made.clear();
            int op = (int)r.below(6);
            std::string ctx = cat("from ", A, op == 0 ? " and " + B : "", " limit ", max);
            switch (op) {
            case 0: {
                xo(t[a], t[b]);
                std::string C = text(t[a]), D = text(t[b]);
                bool ok = false;
                for (size_t i = 0; i < A.size() && !ok; ++i) {
                    std::string pi = A.substr(i, span(A, i));
                    for (size_t j = 0; j < B.size() && !ok; ++j) {
                        size_t sj = span(B, j), n1 = A.size() - pi.size() + sj, n2 = B.size() - sj + pi.size();
                        if ((!max || n1 <= max) && n1 != C.size()) continue;
                        if ((!max || n2 <= max) && n2 != D.size()) continue;
                        ok = pruned(swapIn(A, i, B.substr(j, sj)), max) == C && pruned(swapIn(B, j, pi), max) == D;
                    }
                }
                CHECK(ok, "xover-material", "crossover gives ", C, " and ", D, " ", ctx);
                valid(t[b], "crossover", ctx);
                CHECK(!max || D.size() <= max, "size-limit", "crossover gives ", D, " ", ctx);
                event(C == A && D == B ? "xover_same" : "xover_changed");
                break;
            }
            case 1: {
                branch(t[a]);
                std::string C = text(t[a]);
                bool ok = false;
                for (size_t i = 0; i < A.size() && !ok; ++i)
                    for (auto& g : init.made)
                        for (size_t j = 0; j < g.size() && !ok; ++j) ok = pruned(swapIn(A, i, g.substr(j, span(g, j))), max) == C;
                CHECK(ok, "branch-material", "branch mutation gives ", C, " with ", show(init.made), " ", ctx);
                event("branch");
                break;
            }
            case 2: {
                point(t[a]);
                std::string C = text(t[a]);
                int diff = 0;
                bool ok = C.size() == A.size();
                for (size_t i = 0; ok && i < A.size(); ++i) if (A[i] != C[i]) { ++diff; ok = strlen(sig(A[i])) == strlen(sig(C[i])) && names.find(C[i]) != std::string::npos; }
                CHECK(ok && diff <= 1, "point-material", "point mutation gives ", C, " ", ctx);
                event("point");
                break;
            }
            case 3: {
                expand(t[a]);
                std::string C = text(t[a]);
                bool ok = false;
                for (size_t i = 0; i < A.size() && !ok; ++i) {
                    if (sig(A[i])[1]) continue;
                    for (auto& g : init.made)
                        for (size_t j = 0; j < g.size() && !ok; ++j) if (sig(g[j])[1]) ok = pruned(swapIn(A, i, g.substr(j, span(g, j))), max) == C;
                }
                CHECK(ok, "expansion-material", "expansion gives ", C, " with ", show(init.made), " ", ctx);
                event("expansion");
                break;
            }
            case 4: {
                collapse(t[a]);
                std::string C = text(t[a]);
                bool ok = false;
                for (size_t i = 0; i < A.size() && !ok; ++i) {
                    if (!sig(A[i])[1] && A.size() > 1) continue;
                    for (char c : names) if (!sig(c)[1] && pruned(swapIn(A, i, std::string(1, c)), max) == C) ok = true;
                }
                CHECK(ok, "collapse-material", "collapse gives ", C, " ", ctx);
                event("collapse");
                break;
            }
            case 5: {
                hoist(t[a]);
                std::string C = text(t[a]);
                CHECK(isPieceOf(C, A), "hoist-material", "hoist gives ", C, " ", ctx);
                event("hoist");
                break;
            }
            }
            std::string C = text(t[a]);
            CHECK(whole(C), "malformed", "operator ", op, " gives ", C, " ", ctx);
            // operators that take a limit keep to it
            if (op != 2 && op != 5) CHECK(!max || C.size() <= max, "size-limit", "operator ", op, " gives ", C, " ", ctx);
            valid(t[a], "operator", ctx);
            order(t[a], "operator");
            state(hstr(C));
        }
    }
    CHECK(TN::live == before, "tree-leak", TN::live - before, " nodes alive after their trees are gone");
}
inline void typedCase(Rand& r) {
    std::string names = r.pick(std::vector<std::string>{"abPLIXAtf", "aPLItf", "abNILtX", "acMLIAf"});
    std::vector<TN> nd(names.begin(), names.end());
    r.shuffle(nd);
    int ret = (int)r.below(2);
    unsigned depth = (unsigned)r.range(2, 4);
    bool grow = r.flip(0.7);
    if (!grow) depth = 2; // a full typed tree may need several tries
    eoStParseTreeDepthInit<double, TN> raw(depth, nd, ret, grow);
    eoStParseTreeDepthInit<double, TN> rawBoth(depth + 1, nd, ret, true);
    RecInit init(rawBoth);
    size_t max = r.flip(0.3) ? 0 : (size_t)r.range(5, 40);
    eoStSubtreeXOver<double, TN> xo((unsigned)max);
    eoStBranchMutation<double, TN> branch(init, (unsigned)max);
    eoStPointMutation<double, TN> point(nd);
    eoStHoistMutation<double, TN> hoist(init, (unsigned)max);
    std::vector<Tree> t;
    for (int i = 0; i < 4; ++i) {
        Tree x;
        int tries = 0;
        do {
            raw(x);
            std::string s = text(x);
            event("typed_init");
            CHECK(whole(s) && typed(s) && sig(s[0])[0] - '0' == ret, "typed-init", s, " asked for type ", ret);
            CHECK(s.find_first_not_of(names) == std::string::npos, "typed-init", s);
            CHECK(depthOf(s) <= depth, "typed-init-depth", s, " over ", depth);
            if (!grow) CHECK(leavesOff(s, depth) == 0, "typed-init-full", s, " of depth ", depth);
            valid(x, "typed initialising", s);
        } while (max && x.size() > max && ++tries < 50);
        if (max && x.size() > max) x = build(ret ? (names.find('t') != std::string::npos ? "t" : "f") : "a");
        t.push_back(x);
    }
    for (int step = 0; step < 25; ++step) {
        int a = (int)r.below(4), b = (int)((a + 1 + r.below(3)) % 4);
        std::string A = text(t[a]), B = text(t[b]);
        if (A.size() > 100 || B.size() > 100) return;
        init.made.clear();
        int op = (int)r.below(4);
        std::string ctx = cat("from ", A, op == 0 ? " and " + B : "", " limit ", max);
        if (op == 0) {
            xo(t[a], t[b]);
            std::string C = text(t[a]), D = text(t[b]);
            bool ok = C == A && D == B;
            for (size_t i = 0; i < A.size() && !ok; ++i)
                for (size_t j = 0; j < B.size() && !ok; ++j) {
                    std::string c = swapIn(A, i, B.substr(j, span(B, j))), d = swapIn(B, j, A.substr(i, span(A, i)));
                    ok = c == C && d == D; // never cut: cutting could change the type
                }
            CHECK(ok, "typed-xover-material", "crossover gives ", C, " and ", D, " ", ctx);
            CHECK(typed(D) && whole(D), "typed-broken", "crossover gives ", D, " ", ctx);
            valid(t[b], "typed crossover", ctx);
            event(C == A && D == B ? "typed_xover_same" : "typed_xover");
        } else if (op == 1) {
            branch(t[a]);
            std::string C = text(t[a]);
            bool ok = C == A;
            for (size_t i = 0; i < A.size() && !ok; ++i)
                for (auto& g : init.made)
                    for (size_t j = 0; j < g.size() && !ok; ++j) ok = swapIn(A, i, g.substr(j, span(g, j))) == C;
            CHECK(ok, "typed-branch-material", "branch mutation gives ", C, " ", ctx);
            event("typed_branch");
        } else if (op == 2) {
            point(t[a]);
            std::string C = text(t[a]);
            int diff = 0;
            bool ok = C.size() == A.size();
            for (size_t i = 0; ok && i < A.size(); ++i) if (A[i] != C[i]) ++diff;
            CHECK(ok && diff <= 1, "typed-point-material", "point mutation gives ", C, " ", ctx);
            event("typed_point");
        } else {
            hoist(t[a]);
            CHECK(isPieceOf(text(t[a]), A), "typed-hoist-material", "hoist gives ", text(t[a]), " ", ctx);
            event("typed_hoist");
        }
        std::string C = text(t[a]);
        CHECK(whole(C) && typed(C), "typed-broken", "operator ", op, " gives ", C, " ", ctx);
        CHECK(sig(C[0])[0] == sig(A[0])[0], "typed-root", "operator ", op, " changes the type of the tree: ", C, " ", ctx);
        valid(t[a], "typed operator", ctx);
        state(hstr(C));
    }
}
// every node can be cut, every piece received
inline void reachCase(Rand& r) {
    std::string A = "PNaTabc", B = "MabN"; B += "d";
    B = "MbNd";
    std::set<std::string> seen;
    const int N = 3000;
    eoSubtreeXOver<double, TN> xo(0);
    std::map<std::pair<size_t, size_t>, int> hit;
    for (int k = 0; k < N; ++k) {
        Tree a = build(A), b = build(B);
        xo(a, b);
        seen.insert(text(a) + "|" + text(b));
    }
    std::set<std::string> want;
    for (size_t i = 0; i < A.size(); ++i)
        for (size_t j = 0; j < B.size(); ++j) want.insert(swapIn(A, i, B.substr(j, span(B, j))) + "|" + swapIn(B, j, A.substr(i, span(A, i))));
    CHECK(seen == want, "xover-reach", seen.size(), " of ", want.size(), " exchanges seen in ", N, " crossovers of small trees");
    event("reach");
    (void)r;
}
inline void bigCase(Rand& r) {
    // deep full trees of many nodes, long chains
    std::vector<TN> nd{TN('a'), TN('b'), TN('P')};
    eoParseTreeDepthInit<double, TN> init(17, nd, false, false);
    Tree t, u;
    init(t);
    CHECK(t.size() == (1u << 17) - 1 && t.depth() == 17, "big-size", "a full binary tree of depth 17 records size ", t.size(), " depth ", t.depth());
    valid(t, "a big tree", "");
    std::string chain(3000, 'N');
    chain += "a";
    u = build(chain);
    valid(u, "a chain", "");
    eoSubtreeXOver<double, TN> xo(70000);
    for (int k = 0; k < 4; ++k) {
        std::string before1 = text(t), before2 = text(u);
        xo(t, u);
        valid(t, "crossover of big trees", ""); valid(u, "crossover of big trees", "");
        CHECK(t.size() <= 70000 && u.size() <= 70000, "size-limit", "crossover gives ", t.size(), " and ", u.size(), " nodes with a limit of 70000");
        CHECK(whole(text(t)) && whole(text(u)), "malformed", "big trees");
    }
    Tree w(t);
    CHECK(w == t, "tree-copy", "big copy");
    w[w.size() / 2] = TN('c');
    valid(w, "a big tree changed", "");
    event("big");
    (void)r;
}
} // namespace NS
