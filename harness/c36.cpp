// C36: serialised objects read back equal, and arrive equal at other processes.
#include "fakempi/world.h"
#include <mpi/eoMpi.h>
#include <serial/eoSerial.h>
#include <utils/eoTimer.h>
#include "c32.h"
#include <list>
#include <sys/resource.h>
#include <sys/time.h>
#include <memory>

using namespace mon;
namespace es = eoserial;

// clocks of the timers, driven by the clock unit
static long long fake_user, fake_sys, fake_wall; // microseconds
extern "C" int getrusage(__rusage_who_t, struct rusage* u) noexcept {
    memset(u, 0, sizeof *u);
    u->ru_utime.tv_sec = fake_user / 1000000; u->ru_utime.tv_usec = fake_user % 1000000;
    u->ru_stime.tv_sec = fake_sys / 1000000; u->ru_stime.tv_usec = fake_sys % 1000000;
    return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
    t->tv_sec = fake_wall / 1000000; t->tv_usec = fake_wall % 1000000;
    return 0;
}

namespace {
std::string word(Rand& r, long hi, bool escapes = true) {
    static const char A[] = "abcXYZ019 ,;:{}[]\n\t'/.-+_#@";
    std::string s;
    for (long i = r.size(0, hi); i > 0; --i) {
        if (escapes && r.below(12) == 0) {
            // a quote must be escaped by the writer of the string
            for (long k = r.below(3); k > 0; --k) s += "\\\\";
            if (r.flip()) s += "\\\"";
        } else s += A[r.below(sizeof A - 1)];
    }
    return s;
}
// a tree and its reference, built side by side
struct Ref { int kind = 0; std::string text; std::vector<Ref> list; std::map<std::string, Ref> map; };
Ref tree(Rand& r, int depth, long& budget) {
    Ref t;
    t.kind = depth <= 0 || budget <= 0 ? 0 : (int)r.below(3);
    --budget;
    if (t.kind == 0) t.text = word(r, 12);
    else if (t.kind == 1) for (long i = r.size(0, 9); i > 0; --i) t.list.push_back(tree(r, depth - 1, budget));
    else for (long i = r.size(0, 9); i > 0; --i) t.map[word(r, 8)] = tree(r, depth - 1, budget);
    return t;
}
es::Entity* build(const Ref& t) {
    if (t.kind == 0) return es::make(t.text);
    if (t.kind == 1) { es::Array* a = new es::Array; for (auto& x : t.list) a->push_back(build(x)); return a; }
    es::Object* o = new es::Object;
    for (auto& x : t.map) o->add(x.first, build(x.second));
    return o;
}
std::string differs(const Ref& t, const es::Entity* e) {
    if (!e) return "an element is missing";
    if (t.kind == 0) {
        const es::String* s = dynamic_cast<const es::String*>(e);
        if (!s) return "not a string";
        if (*s != t.text) return cat("string '", std::string(*s), "', expected '", t.text, "'");
        return "";
    }
    if (t.kind == 1) {
        const es::Array* a = dynamic_cast<const es::Array*>(e);
        if (!a) return "not an array";
        if (a->size() != t.list.size()) return cat("array of ", a->size(), ", expected ", t.list.size());
        for (size_t i = 0; i < a->size(); ++i) { std::string w = differs(t.list[i], (*a)[i]); if (!w.empty()) return w; }
        return "";
    }
    const es::Object* o = dynamic_cast<const es::Object*>(e);
    if (!o) return "not an object";
    if (o->size() != t.map.size()) return cat("object with ", o->size(), " keys, expected ", t.map.size());
    for (auto& x : t.map) {
        auto it = o->find(x.first);
        if (it == o->end()) return cat("key '", x.first, "' missing");
        std::string w = differs(x.second, it->second);
        if (!w.empty()) return w;
    }
    return "";
}
// the same tree written by hand, with other white space
std::string blank(Rand& r) { static const char* B[] = {"", "", " ", "\n", "  \n "}; return B[r.below(5)]; }
void write(Rand& r, const Ref& t, std::string& out) {
    if (t.kind == 0) { out += "\"" + t.text + "\""; return; }
    bool first = true;
    if (t.kind == 1) {
        out += "[" + blank(r);
        for (auto& x : t.list) { if (!first) out += blank(r) + "," + blank(r); first = false; write(r, x, out); }
        out += blank(r) + "]";
    } else {
        out += "{" + blank(r);
        for (auto& x : t.map) { if (!first) out += blank(r) + "," + blank(r); first = false; out += "\"" + x.first + "\":" + blank(r); write(r, x.second, out); }
        out += blank(r) + "}";
    }
}
std::string text(const es::Entity& e) { std::ostringstream o; e.print(o); return o.str(); }
template <class T> T through(const T& v) {
    es::Object o;
    o.add("k", es::make(v));
    std::unique_ptr<es::Object> p(es::Parser::parse(text(o)));
    T w = T();
    es::unpack(*p, "k", w);
    return w;
}
template <class T> void number(T v) {
    T w = through(v);
    CHECK(w == v, "number", "number ", (long double)v, " came back as ", (long double)w, ", difference ", (long double)w - (long double)v);
    event("number");
}
double anyDouble(Rand& r) {
    switch (r.below(6)) {
    case 0: return (double)r.range(-100, 100);
    case 1: return r.u01();
    case 2: { u64 b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) && std::fabs(d) > 1e-300 ? d : 0.1; }
    case 3: return 1. / (double)r.range(1, 1000);
    case 4: return std::pow(10., (double)r.range(-300, 300));
    default: return r.real(-1e6, 1e6);
    }
}
struct Box : public es::Persistent {
    std::vector<double> v;
    std::list<int> l;
    std::map<std::string, long> m;
    std::vector<std::vector<std::string> > vv;
    std::vector<c32::Item> items;
    c32::Item one;
    bool flag = false;
    std::string s;
    es::Object* pack() const override {
        es::Object* o = new es::Object;
        o->add("v", es::makeArray<std::vector<double>, es::MakeAlgorithm>(v));
        o->add("l", es::makeArray<std::list<int>, es::MakeAlgorithm>(l));
        es::Object* mm = new es::Object;
        for (auto& x : m) mm->add(x.first, es::make(x.second));
        o->add("m", mm);
        es::Array* a = new es::Array;
        for (auto& x : vv) a->push_back(es::makeArray<std::vector<std::string>, es::MakeAlgorithm>(x));
        o->add("vv", a);
        o->add("items", es::makeArray<std::vector<c32::Item>, es::SerializablePushAlgorithm>(items));
        o->add("one", &one);
        o->add("flag", es::make(flag));
        o->add("s", es::make(s));
        return o;
    }
    void unpack(const es::Object* o) override {
        v.clear(); l.clear(); m.clear(); vv.clear(); items.clear();
        es::unpack(*o, "v", v);
        es::unpack(*o, "l", l);
        es::unpack(*o, "m", m);
        es::unpack(*o, "vv", vv);
        es::unpack(*o, "items", items);
        es::unpackObject(*o, "one", one);
        es::unpack(*o, "flag", flag);
        es::unpack(*o, "s", s);
    }
    static Box random(Rand& r, bool big) {
        Box b;
        for (long i = r.size(0, big ? 2000 : 10); i > 0; --i) b.v.push_back(anyDouble(r));
        for (long i = r.size(0, 10); i > 0; --i) b.l.push_back((int)r.range(-1000000, 1000000));
        for (long i = r.size(0, 10); i > 0; --i) b.m[word(r, 6)] = r.range(-1000000000000L, 1000000000000L);
        for (long i = r.size(0, 5); i > 0; --i) { b.vv.emplace_back(); for (long k = r.size(0, 4); k > 0; --k) b.vv.back().push_back(word(r, 5)); }
        for (long i = r.size(0, 5); i > 0; --i) b.items.push_back(c32::Item::random(r, false));
        b.one = c32::Item::random(r, big);
        b.flag = r.flip();
        b.s = word(r, big ? 5000 : 20);
        return b;
    }
    std::string differs(const Box& o) const {
        if (v != o.v) return "vector of reals";
        if (l != o.l) return "list of integers";
        if (m != o.m) return "map";
        if (vv != o.vv) return "vector of vectors";
        if (items.size() != o.items.size()) return "number of objects";
        for (size_t i = 0; i < items.size(); ++i) { std::string w = items[i].differs(o.items[i]); if (!w.empty()) return w; }
        std::string w = one.differs(o.one);
        if (!w.empty()) return w;
        if (flag != o.flag) return "flag";
        if (s != o.s) return "string";
        return "";
    }
};
} // namespace

UNIT(trees, 400, 6000, "tree,key,escaped") {
    long budget = idx % 50 == 3 ? 3000 : 60;
    Ref t = tree(r, (int)r.range(1, 6), budget);
    if (t.kind != 2) { Ref u; u.kind = 2; u.map["root"] = t; t = u; }
    std::unique_ptr<es::Entity> e(build(t));
    std::string s = text(*e);
    std::unique_ptr<es::Object> p(es::Parser::parse(s));
    std::string w = differs(t, p.get());
    CHECK(w.empty(), "tree", w, " in ", s.substr(0, 300));
    std::string hand;
    write(r, t, hand);
    std::unique_ptr<es::Object> q(es::Parser::parse(hand));
    w = differs(t, q.get());
    CHECK(w.empty(), "white-space", w, " in ", hand.substr(0, 300));
    CHECK(text(*p) == s, "reprint", "printed again: ", text(*p).substr(0, 200), ", first ", s.substr(0, 200));
    event("tree");
    event("key", t.map.size() + 1);
    if (s.find('\\') != std::string::npos) event("escaped");
    state(hstr(s));
    if (idx < 3) sample(s);
}

UNIT(numbers, 60, 800, "number") {
    for (int i = 0; i < 40; ++i) {
        number(anyDouble(r));
        number((float)r.real(-1e6, 1e6));
        number((int)(uint32_t)r.next());
        number((unsigned)r.next());
        number((long)r.next());
        number((unsigned long)r.next());
        number(r.flip());
        number((short)r.next());
    }
    number(std::numeric_limits<double>::max());
    number(std::numeric_limits<double>::min());
    number(-std::numeric_limits<double>::max());
    number(std::numeric_limits<double>::epsilon());
    number(0.1); number(1. / 3); number(0.); number(std::numeric_limits<int>::min()); number(std::numeric_limits<long>::min());
    number(std::numeric_limits<unsigned long>::max());
    std::string s = word(r, 40);
    CHECK(through(s) == s, "string", "string '", s, "'");
}

UNIT(objects, 150, 2500, "object,elements") {
    Box b = Box::random(r, idx % 20 == 4), c = Box::random(r, false);
    std::unique_ptr<es::Object> o(b.pack());
    std::string s = text(*o);
    std::unique_ptr<es::Object> p(es::Parser::parse(s));
    c.unpack(p.get()); // over an object that held something else
    std::string w = c.differs(b);
    CHECK(w.empty(), "object", w, " changed, text ", s.substr(0, 300));
    p->deserialize(c);
    w = c.differs(b);
    CHECK(w.empty(), "object-again", w, " changed");
    event("object");
    event("elements", b.v.size() + b.items.size() + b.l.size() + 1);
    state(hstr(s));
}

// measured times are sent as objects too
UNIT(timers, 120, 2000, "timer,measure") {
    eoTimerStat a, b;
    a.forceDoMeasure();
    std::map<std::string, size_t> n;
    std::map<std::string, std::vector<long long> > eu, esy, ew;
    fake_user = r.range(0, 50000000); fake_sys = r.range(0, 50000000); fake_wall = 1700000000000000LL + r.range(0, 50000000);
    auto tick = [&](long long& c) { long long d = r.flip(0.3) ? 0 : r.flip() ? r.range(0, 999999) : r.range(0, 30000000); c += d; return d; };
    for (long i = r.range(1, 12); i > 0; --i) {
        std::string k = cat("timer ", r.below(4));
        a.start(k);
        eu[k].push_back(tick(fake_user));
        esy[k].push_back(tick(fake_sys));
        ew[k].push_back(tick(fake_wall));
        a.stop(k);
        tick(fake_user); tick(fake_sys); tick(fake_wall);
        ++n[k];
    }
    b.forceDoMeasure();
    b.start("other"); b.stop("other");
    std::unique_ptr<es::Object> o(a.pack());
    std::unique_ptr<es::Object> p(es::Parser::parse(text(*o)));
    b.unpack(p.get());
    CHECK(b.stats().size() == n.size() && a.stats().size() == n.size(), "timer-keys", b.stats().size(), " timers, expected ", n.size());
    for (auto& x : n) {
        eoTimerStat::Stat &u = a.stats()[x.first], &v = b.stats()[x.first];
        CHECK(u.wtime.size() == x.second && u.utime.size() == x.second && u.stime.size() == x.second, "timer-count", "measures of '", x.first, "': ", u.wtime.size(), ", expected ", x.second);
        CHECK(u.wtime == v.wtime && u.utime == v.utime && u.stime == v.stime, "timer", "measures of '", x.first, "' changed");
        // whole seconds are reported, and the fractions carried to the next measure
        long long cu = 0, cs = 0, ru = 0, rs = 0;
        for (size_t i = 0; i < x.second; ++i) {
            CHECK(close(u.wtime[i], ew[x.first][i] / 1e6, 1e-12, 1e-7), "wall", "wall clock ", u.wtime[i], " for ", ew[x.first][i], " microseconds");
            cu += eu[x.first][i]; cs += esy[x.first][i]; ru += u.utime[i]; rs += u.stime[i];
            CHECK(ru == cu / 1000000, "user-time", "user times add up to ", ru, " s for ", cu, " microseconds");
            CHECK(rs == cs / 1000000, "system-time", "system times add up to ", rs, " s for ", cs, " microseconds");
            event("measure");
        }
        event("timer");
    }
    state(n.size());
}

// what one process sends, another receives: equal and in order
UNIT_T(transfer, 80, 500, 60, "arrived,mpi_message,mpi_choice") {
    int n = (int)r.range(2, 5);
    u64 seed = r.next();
    int rounds = (int)r.range(1, 8);
    // every rank sends the same kinds of things, drawn from its own generator, to rank 0
    auto res = world::run(r, n, [&] {
        eo::mpi::communicator& comm = eo::mpi::Node::comm();
        int me = comm.rank();
        CHECK(comm.size() == n && me == world::rank(), "identity", "rank ", me, " of ", comm.size());
        if (me) {
            Rand q(mix(seed, me));
            for (int k = 0; k < rounds; ++k) {
                int kind = (int)q.below(4), tag = (int)q.below(3);
                comm.send(0, 9, kind);
                comm.send(0, 9, tag);
                if (kind == 0) comm.send(0, tag, (int)(uint32_t)q.next());
                else if (kind == 1) comm.send(0, tag, word(q, q.below(6) == 0 ? 20000 : 20, false));
                else if (kind == 2) comm.send(0, tag, Box::random(q, q.below(6) == 0));
                else { std::vector<c32::Item> v; for (long i = q.range(1, 6); i > 0; --i) v.push_back(c32::Item::random(q, false)); comm.send(0, tag, &v[0], (int)v.size()); }
            }
        } else {
            std::vector<Rand> q;
            for (int i = 0; i < n; ++i) q.push_back(Rand(mix(seed, i)));
            for (int k = 0; k < rounds * (n - 1); ++k) {
                eo::mpi::status st = comm.probe(eo::mpi::any_source, 9);
                int s = st.source();
                CHECK(s > 0 && s < n && st.tag() == 9, "probe", "source ", s, ", tag ", st.tag());
                int kind, tag, ek = (int)q[s].below(4), et = (int)q[s].below(3);
                comm.recv(s, 9, kind);
                comm.recv(s, 9, tag);
                CHECK(kind == ek && tag == et, "int", "kind ", kind, " tag ", tag, ", expected ", ek, " ", et);
                if (kind == 0) { int v; comm.recv(s, tag, v); CHECK(v == (int)(uint32_t)q[s].next(), "int", "integer ", v); }
                else if (kind == 1) { std::string v = "old", e = word(q[s], q[s].below(6) == 0 ? 20000 : 20, false); comm.recv(s, tag, v); CHECK(v == e, "string", "a string of ", v.size(), ", expected ", e.size()); }
                else if (kind == 2) { Box b, e = Box::random(q[s], q[s].below(6) == 0); comm.recv(s, tag, b); std::string w = b.differs(e); CHECK(w.empty(), "sent-object", w, " changed"); }
                else {
                    std::vector<c32::Item> e;
                    for (long i = q[s].range(1, 6); i > 0; --i) e.push_back(c32::Item::random(q[s], false));
                    std::vector<c32::Item> v(e.size());
                    comm.recv(s, tag, &v[0], (int)v.size());
                    for (size_t i = 0; i < v.size(); ++i) { std::string w = v[i].differs(e[i]); CHECK(w.empty(), "sent-array", w, " in element ", i, " of ", v.size()); }
                }
                world::note("arrived", kind, s);
            }
        }
        comm.barrier();
        comm.~communicator();
    });
    for (auto& e : res.log) if (e.what == "arrived") event("arrived");
}
