// C14: stopping criteria, checkpoints, monitors and updaters fire exactly when specified.
#include "eoh.h"
#include <eoInvertedContinue.h>
#include <eoSIGContinue.h>
#include <eoCtrlCContinue.h>
#include <utils/eoSignal.h>
#include <utils/eoUpdatable.h>
#include <utils/eoTimedMonitor.h>
#include <utils/eoGenCounter.h>
#include <utils/eoFileSnapshot.h>
#include <fstream>
#include <csignal>
#include <ctime>
#include <sys/stat.h>
#include <unistd.h>
using namespace eoh;

// the clocks of this process are ours
bool fake = false; time_t fakeTime = 1000000; static clock_t fakeClock = 5000;
extern "C" time_t time(time_t* t) noexcept { timespec s; time_t v = fakeTime; if (!fake) { clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
extern "C" clock_t clock() noexcept { return fakeClock; }
struct Fake { Fake() { fake = true; } ~Fake() { fake = false; } };

template <class E> struct Counted : eoEvalFunc<E> { void operator()(E& e) { e.fitness((double)e.id); } };

template <class E> void criteria(Rand& r) {
    typedef typename E::Fitness F;
    Quiet q; Fake f;
    // a history of populations
    unsigned gens = (unsigned)r.size(1, 40); if (r.flip(0.02)) gens = 700;
    int kind = (int)r.below(9);
    unsigned psize = (unsigned)r.size(1, 8);
    auto pops = [&](unsigned g) { eoPop<E> p; for (unsigned i = 0; i < psize; ++i) p.push_back(E((int)(g * psize + i), (double)r.range(-6, 6))); return p; };
    auto best = [&](const eoPop<E>& p) { return bestQ(p); };
    std::vector<eoContinue<E>*> own; std::vector<std::function<bool(const eoPop<E>&)>> model; std::vector<std::string> what;
    eoEvalFunc<E>* ev = new Counted<E>; eoEvalFuncCounter<E> counter(*ev); unsigned long evals = 0;
    std::vector<unsigned long*> refs;
    auto make = [&](int k) {
        switch (k) {
        case 0: { unsigned long n = (unsigned long)r.range(0, 45); if (r.flip()) { auto* g = new eoGenContinue<E>(n); own.push_back(g); unsigned long* c = new unsigned long(0); refs.push_back(c); model.push_back([=](const eoPop<E>&) { CHECK(g->value() == *c, "gen-count", "counter ", g->value(), " after ", *c); ++*c; return *c < n; }); what.push_back(cat("gen ", n)); }
                  else { unsigned long* cur = new unsigned long((unsigned long)r.range(0, 20)); refs.push_back(cur); unsigned long* c = new unsigned long(*cur); refs.push_back(c); own.push_back(new eoGenContinue<E>(n, *cur)); what.push_back(cat("gen ", n, " from ", *c)); model.push_back([=](const eoPop<E>&) { CHECK(*cur == *c, "gen-count", "shared counter"); ++*c; return *c < n; }); } break; }
        case 1: { unsigned long n = (unsigned long)r.range(0, 150); own.push_back(new eoEvalContinue<E>(counter, n)); what.push_back(cat("evals ", n)); model.push_back([&evals, n](const eoPop<E>&) { return evals < n; }); break; }
        case 2: { double t = (double)r.range(-6, 7); own.push_back(new eoFitContinue<E>(F(t))); double gq = good(F(t)); what.push_back(cat("fitness ", t)); model.push_back([=](const eoPop<E>& p) { return best(p) < gq; }); break; }
        case 3: { unsigned long mn = (unsigned long)r.range(0, 12), st = (unsigned long)r.range(0, 8); unsigned long start = 0; unsigned long* cur = 0;
                  if (r.flip(0.7)) own.push_back(new eoSteadyFitContinue<E>(mn, st)); else { start = (unsigned long)r.range(0, 20); cur = new unsigned long(start); refs.push_back(cur); own.push_back(new eoSteadyFitContinue<E>(mn, st, *cur)); }
                  what.push_back(cat("steady ", mn, "+", st, " from ", start));
                  struct S { unsigned long g, last; bool steady; double best; }; auto s = std::make_shared<S>(S{start, 0, false, 0});
                  model.push_back([=](const eoPop<E>& p) { ++s->g; double b = best(p); if (!s->steady) { if (s->g > mn) { s->steady = true; s->best = b; s->last = s->g; } return true; } if (b > s->best) { s->best = b; s->last = s->g; return true; } return s->g - s->last <= st; }); break; }
        case 4: { unsigned per = (unsigned)r.range(1, 10), init = r.flip() ? 0 : (unsigned)r.below(15); own.push_back(new eoPeriodicContinue<E>(per, init)); unsigned long* c = new unsigned long(init); refs.push_back(c); what.push_back(cat("period ", per, " from ", init)); model.push_back([=](const eoPop<E>&) { return ++*c % per != 0; }); break; }
        case 5: { time_t m = (time_t)r.range(0, 60), s0 = fakeTime; own.push_back(new eoTimeContinue<E>(m)); what.push_back(cat("time ", m)); model.push_back([=](const eoPop<E>&) { return fakeTime - s0 < m; }); break; }
        case 6: { int m = (int)r.range(0, 60); time_t s0 = fakeTime; own.push_back(new eoSecondsElapsedContinue<E>(m)); what.push_back(cat("seconds ", m)); model.push_back([=](const eoPop<E>&) { return fakeTime - s0 < m; }); break; }
        case 7: own.push_back(new eoDummyContinue<E>); what.push_back("never"); model.push_back([](const eoPop<E>&) { return true; }); break;
        }
    };
    eoContinue<E>* top = 0; bool inverted = false;
    if (kind == 8) { unsigned m = (unsigned)r.range(1, 6); for (unsigned i = 0; i < m; ++i) make((int)r.below(8));
        std::vector<eoContinue<E>*> v(own.begin(), own.end()); eoCombinedContinue<E>* c = 0;
        if (r.flip()) { c = new eoCombinedContinue<E>(*v[0]); for (unsigned i = 1; i < v.size(); ++i) c->add(*v[i]); } else c = new eoCombinedContinue<E>(v);
        top = c; own.push_back(c); event("combined");
    } else { make(kind); top = own[0]; if (r.flip(0.1)) { inverted = true; top = new eoInvertedContinue<E>(*own[0]); own.push_back(top); event("inverted"); } event("single"); }
    u64 h = hstr(show(what)); bool stopped = false; unsigned g = 0;
    for (; g < gens && !stopped; ++g) {
        // evaluations and time go on during the generation
        unsigned k = (unsigned)r.below(8); for (unsigned i = 0; i < k; ++i) { E e; e.id = 0; counter(e); ++evals; }
        if (r.flip(0.5)) fakeTime += r.range(0, 6);
        eoPop<E> p = pops(g);
        bool want = true; for (auto& m : model) if (!m(p)) { want = false; break; } // later members are not consulted any more
        if (inverted) want = !want;
        std::vector<int> before = idseq(p);
        bool got = (*top)(p);
        CHECK(got == want, "wrong-moment", show(what), inverted ? " inverted" : "", " at generation ", g + 1, got ? " goes on" : " stops", ", best ", best(p), " evaluations ", evals);
        CHECK(idseq(p) == before, "population-changed", show(what));
        stopped = !want; h = mix(h, mix(got, hdbl(best(p))));
        if (got != want) break;
    }
    if (stopped) event("stopped"); else event("ran_on");
    // a limit set again starts a new count
    if (kind == 0) if (auto* gc = dynamic_cast<eoGenContinue<E>*>(own[0])) { unsigned n = (unsigned)r.range(1, 9); gc->totalGenerations(n); CHECK(gc->totalGenerations() == n, "limit", n); eoPop<E> p = pops(0); for (unsigned i = 1; i <= n; ++i) CHECK((*gc)(p) == (i < n), "wrong-moment", "after a reset to ", n, ", generation ", i); event("reset"); }
    if (kind == 3) if (auto* sc = dynamic_cast<eoSteadyFitContinue<E>*>(own[0])) { unsigned mn = (unsigned)r.below(5), st = (unsigned)r.below(5); sc->totalGenerations(mn, st); eoPop<E> p = pops(0); unsigned i = 1; for (; i < 40; ++i) if (!(*sc)(p)) break; CHECK(i == mn + 1 + st + 1, "wrong-moment", "constant run with minimum ", mn, " and steady ", st, " stops at ", i); event("reset"); }
    state(h); sample(cat(show(what), stopped ? " stops at " : " runs on after ", g));
    for (auto c : own) delete c; for (auto x : refs) delete x; delete ev;
}
UNIT(criteria, 6000, 150000, "single,combined,inverted,stopped,ran_on,reset") { if (idx % 2) criteria<Ind<double>>(r); else criteria<Ind<MinF>>(r); }

typedef Ind<double> I; typedef eoPop<I> P;
static std::vector<std::string>* logp = 0;
static void note(const std::string& s) { logp->push_back(s); }
struct Cont : eoContinue<I> { int id; std::vector<bool> script; size_t n = 0; Cont(int i) : id(i) {} bool operator()(const P&) { note(cat("cont", id)); bool b = n >= script.size() || script[n]; ++n; return b; } };
struct Stat : eoStat<I, double> { int id; const P** seen; Stat(int i) : eoStat<I, double>(0, cat("s", i)), id(i) {} void operator()(const P& p) { note(cat("stat", id)); value() = p.size() ? val(p[0]) + 1000 * id : 0; } void lastCall(const P& p) { note(cat("laststat", id)); CHECK(value() == (p.size() ? val(p[0]) + 1000 * id : 0), "last-call", "other population"); } };
struct Sorted : eoSortedStat<I, double> { int id; Sorted(int i) : eoSortedStat<I, double>(0, cat("o", i)), id(i) {} std::vector<const I*> mine;
    static void look(const std::vector<const I*>& v) { for (size_t i = 1; i < v.size(); ++i) CHECK(!(qual(*v[i - 1]) < qual(*v[i])), "not-sorted", "position ", i); }
    void operator()(const std::vector<const I*>& v) { note(cat("sorted", id)); look(v); mine = v; value() = v.empty() ? 0 : val(*v[0]); } void lastCall(const std::vector<const I*>& v) { note(cat("lastsorted", id)); look(v); CHECK(v == mine, "last-call", "other order"); } };
struct Upd : eoUpdater { int id; Upd(int i) : id(i) {} void operator()() { note(cat("upd", id)); } void lastCall() { note(cat("lastupd", id)); } };
struct Mon : eoMonitor { int id; std::vector<std::pair<const eoParam*, std::string>> want; Mon(int i) : id(i) {} eoMonitor& operator()() { note(cat("mon", id)); return *this; } void lastCall() { note(cat("lastmon", id)); } };

UNIT(checkpoints, 3000, 60000, "generation,last,several,none_registered,run") {
    std::vector<std::string> log; logp = &log;
    unsigned nc = (unsigned)r.range(1, 5), ns = (unsigned)r.below(4), no = (unsigned)r.below(4), nu = (unsigned)r.below(4), nm = (unsigned)r.below(4);
    if (idx % 50 == 7) { nc = 1; ns = no = nu = nm = 0; }
    std::vector<Cont*> c; std::vector<Stat*> s; std::vector<Sorted*> o; std::vector<Upd*> u; std::vector<Mon*> m;
    unsigned gens = (unsigned)r.range(1, 12); bool stops = false; unsigned stopAt = gens;
    for (unsigned i = 0; i < nc; ++i) { c.push_back(new Cont((int)i)); for (unsigned g = 0; g < gens; ++g) { bool b = !r.flip(0.04); c.back()->script.push_back(b); if (!b && g < stopAt) { stopAt = g; stops = true; } } }
    eoCheckPoint<I> cp(*c[0]);
    // registered in any interleaving; order inside a family is the order of registration
    std::vector<int> todo; for (unsigned i = 1; i < nc; ++i) todo.push_back(0); for (unsigned i = 0; i < ns; ++i) todo.push_back(1); for (unsigned i = 0; i < no; ++i) todo.push_back(2); for (unsigned i = 0; i < nu; ++i) todo.push_back(3); for (unsigned i = 0; i < nm; ++i) todo.push_back(4);
    r.shuffle(todo); unsigned ci = 1;
    for (int t : todo) switch (t) {
        case 0: cp.add(*c[ci++]); break;
        case 1: s.push_back(new Stat((int)s.size())); if (r.flip()) cp.add(*s.back()); else s.back()->addTo(cp); break;
        case 2: o.push_back(new Sorted((int)o.size())); if (r.flip()) cp.add(*o.back()); else o.back()->addTo(cp); break;
        case 3: u.push_back(new Upd((int)u.size())); if (r.flip()) cp.add(*u.back()); else u.back()->addTo(cp); break;
        default: m.push_back(new Mon((int)m.size())); if (r.flip()) cp.add(*m.back()); else m.back()->addTo(cp); }
    for (unsigned g = 0; g < gens; ++g) {
        P p = makePop<I>(r, (unsigned)r.size(1, 12), 0); auto before = idseq(p);
        std::vector<std::string> want; auto fam = [&](const char* n, size_t k) { for (size_t i = 0; i < k; ++i) want.push_back(cat(n, i)); };
        fam("sorted", no); fam("stat", ns); fam("upd", nu); fam("mon", nm); fam("cont", nc);
        bool go = !(stops && g == stopAt);
        if (!go) { fam("lastsorted", no); fam("laststat", ns); fam("lastupd", nu); fam("lastmon", nm); event("last"); }
        log.clear(); bool got = cp(p);
        CHECK(log == want, "calls", "generation ", g, ": ", show(log, 100), " instead of ", show(want, 100));
        CHECK(got == go, "decision", "generation ", g, got ? " goes on" : " stops"); CHECK(idseq(p) == before, "population-changed", "");
        for (auto x : s) CHECK(x->value() == val(p[0]) + 1000 * x->id, "statistic", "not of this population");
        event("generation"); state(mix(hpop(p), hstr(show(log, 100))));
        if (!go) break;
    }
    event(nc + ns + no + nu + nm > 6 ? "several" : "few"); if (nc + ns + no + nu + nm == 1) event("none_registered");
    for (auto x : c) delete x; for (auto x : s) delete x; for (auto x : o) delete x; for (auto x : u) delete x; for (auto x : m) delete x;
    // a run under a checkpoint
    if (idx % 4 == 0) {
        typedef eoBit<double> B; Quiet q;
        unsigned G = (unsigned)r.range(1, 15), n = (unsigned)r.range(1, 10); eo::rng.reseed((uint32_t)r.next());
        struct Ev : eoEvalFunc<B> { void operator()(B& b) { if (b.invalid()) b.fitness((double)std::count(b.begin(), b.end(), true)); } } ev;
        eoUniformGenerator<bool> g; eoInitFixedLength<B> init(6, g); eoPop<B> pop(n, init); apply<B>(ev, pop);
        eoGenContinue<B> gc(G); eoCheckPoint<B> cp2(gc); eoIncrementorParam<unsigned> inc("gen"); cp2.add(inc); unsigned k = 3; eoIncrementor<unsigned> inc2(k, 2); cp2.add(inc2); eoGenCounter cnt(7); cp2.add(cnt); eoBestFitnessStat<B> bs; cp2.add(bs);
        struct Last : eoUpdater { unsigned n = 0, l = 0; void operator()() { ++n; } void lastCall() { ++l; } } last; cp2.add(last);
        eoDetTournamentSelect<B> sel(2); eoBitMutation<B> mut(0.1);
        eo1PtBitXover<B> xo; eoSelectPerc<B> sp(sel); eoSGATransform<B> tr(xo, 0.5, mut, 0.5); eoGenerationalReplacement<B> rep;
        eoEasyEA<B> ea(cp2, ev, sp, tr, rep); ea(pop);
        CHECK(gc.value() == G && inc.value() == G && k == 3 + 2 * G && cnt.value() == 7 + G - 1 && last.n == G, "run", "limit ", G, " gave ", gc.value(), " ", inc.value(), " ", k, " ", cnt.value(), " ", last.n);
        CHECK(last.l == 1, "final-call", last.l, " final calls"); CHECK(bs.value() == pop.best_element().fitness(), "statistic", "best is not that of the last generation"); event("run");
    }
}

// ---- what goes on outside: signals, clocks, files ------------------------
static int sigCalls = 0, sigArg = 0; static void onSig(int s) { ++sigCalls; sigArg = s; }
UNIT(signals, 60, 400, "signal,ctrl_c,wished,refused") {
    Quiet q; P p = makePop<I>(r, 3, 0);
    static eoSIGContinue<I>* sc = 0; static eoCtrlCContinue<I>* cc = 0;
    if (!sc) { sc = new eoSIGContinue<I>(SIGUSR1, onSig); cc = new eoCtrlCContinue<I>; }
    int told = 0; try { eoCtrlCContinue<I> second; } catch (eoException&) { ++told; } try { eoSIGContinue<I> second(SIGUSR2, onSig); } catch (eoException&) { ++told; } CHECK(told == 2, "second-handler", told); event("refused");
    for (int i = 0; i < 8; ++i) { int before = sigCalls; unsigned n = (unsigned)r.below(3); for (unsigned k = 0; k < n; ++k) raise(SIGUSR1); CHECK(sigCalls == before, "signal", "called from the handler"); CHECK((*sc)(p), "signal", "stopped"); CHECK(sigCalls == before + (n > 0), "signal", n, " signals, ", sigCalls - before, " calls"); if (n) { CHECK(sigArg == SIGUSR1, "signal", "argument"); event("signal"); } }
    for (int i = 0; i < 3; ++i) CHECK((*cc)(p), "ctrl-c", "stopped without a signal");
    int s = r.flip() ? SIGINT : SIGQUIT; if (r.flip(0.7)) { raise(s); for (int i = 0; i < 3; ++i) CHECK(!(*cc)(p), "ctrl-c", "went on after the signal"); event("ctrl_c"); }
    ask_for_stop = false; signal(SIGINT, signal_handler); signal(SIGQUIT, signal_handler);
    {   std::vector<std::string> log; logp = &log; Cont c(0); c.script = {true, false, true}; eoSignal<I> es(c, SIGUSR2); Upd u(0); es.add(u); size_t calls = 0;
        for (int i = 0; i < 10; ++i) { bool send = r.flip(); if (send) raise(SIGUSR2); log.clear(); bool want = !send || calls >= c.script.size() || c.script[calls]; bool got = es(p); if (send) ++calls; CHECK(got == want, "wished", "generation ", i); CHECK(log.size() == (send ? (want ? 2u : 3u) : 0u), "wished", show(log)); if (send) event("wished"); state(mix((u64)i, mix(send, got))); }
        signal(SIGUSR2, SIG_DFL); }
}
struct Tick : eoUpdatable { int n = 0; void update() { ++n; } };
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }

UNIT(updaters, 1500, 20000, "counted,timed,state_counted,state_timed,timed_monitor,time_counter") {
    Quiet q; Fake f;
    {   Tick a, b, c; unsigned per = (unsigned)r.range(1, 7); time_t iv = (time_t)r.range(0, 20); eoCountedDynUpdate cu(a, per); eoTimedDynUpdate tu(b, iv); eoDynUpdater du(c); time_t last = fakeTime; int wantT = 0;
        for (unsigned i = 1; i <= 30; ++i) { fakeTime += r.range(0, 5); cu(); tu(); du(); if (fakeTime >= last + iv) { last = fakeTime; ++wantT; } CHECK(a.n == (int)(i / per), "counted", "period ", per, " call ", i, ": ", a.n); CHECK(b.n == wantT, "timed", "interval ", iv, ": ", b.n, " instead of ", wantT); CHECK(c.n == (int)i, "each", ""); }
        event("counted"); event("timed"); state(mix(per, (u64)wantT)); }
    {   std::string dir = cat(scratch(), "/sv"); mkdir(dir.c_str(), 0700);
        eoState st; eoValueParam<int> x(0, "x", "x"); P small = makePop<I>(r, 2, 0); st.registerObject(small); // small, only its presence matters
        unsigned per = (unsigned)r.range(1, 5), start = r.flip() ? 0 : (unsigned)r.range(1, 9); bool onLast = r.flip(); std::string pre = cat(dir, "/c", idx, "_");
        eoCountedStateSaver sv(per, st, pre, onLast, "sav", start); unsigned calls = (unsigned)r.range(0, 12);
        std::set<unsigned> want; for (unsigned i = 1; i <= calls; ++i) { sv(); if ((start + i) % per == 0) want.insert(start + i); } sv.lastCall(); if (onLast) want.insert(start + calls);
        for (unsigned i = 0; i <= 25; ++i) { std::string n = cat(pre, i, ".sav"); CHECK(exists(n) == (want.count(i) > 0), "state-counted", "period ", per, " from ", start, " after ", calls, " calls: file ", i, exists(n) ? " present" : " missing"); if (exists(n)) { CHECK(slurp(n).size() > 0, "state-counted", "empty"); unlink(n.c_str()); } }
        event("state_counted");
        std::string pt = cat(dir, "/t", idx, "_"); time_t iv = (time_t)r.range(1, 8), t0 = fakeTime, last = fakeTime; eoTimedStateSaver ts(iv, st, pt, "sav"); std::set<time_t> wt;
        for (unsigned i = 0; i < 10; ++i) { fakeTime += r.range(0, 4); ts(); if (fakeTime >= last + iv) { last = fakeTime; wt.insert(fakeTime - t0); } } ts.lastCall();
        for (time_t i = 0; i <= 50; ++i) { std::string n = cat(pt, i, ".sav"); CHECK(exists(n) == (wt.count(i) > 0), "state-timed", "interval ", iv, ": file ", i, exists(n) ? " present" : " missing"); unlink(n.c_str()); }
        event("state_timed"); }
    {   unsigned sec = (unsigned)r.range(0, 4); eoTimedMonitor tm(sec); std::vector<std::string> log; logp = &log; Mon m1(1), m2(2); tm.add(m1); tm.add(m2); bool first = true; clock_t last = 0; size_t fired = 0;
        for (int i = 0; i < 12; ++i) { fakeClock += r.range(0, 2 * CLOCKS_PER_SEC); log.clear(); bool want = first || (unsigned long)(fakeClock - last) >= (unsigned long)sec * CLOCKS_PER_SEC; tm(); if (want) { last = fakeClock; ++fired; } first = false; CHECK(log.size() == (want ? 2u : 0u), "timed-monitor", "every ", sec, " s: call ", i, " ", show(log)); }
        event("timed_monitor"); state(fired);
        eoTimeCounter tc; time_t t0 = fakeTime; fakeTime += r.flip() ? r.range(0, 2000) : r.range(2141, 90000); tc(); double el = (double)(fakeTime - t0); CHECK(close(tc.value(), el > 2140 ? el : (double)fakeClock / CLOCKS_PER_SEC), "time-counter", tc.value()); event("time_counter"); }
}
UNIT(monitors, 1200, 20000, "file,stream,snapshot,header,kept,overwritten") {
    Quiet q; unsigned np = (unsigned)r.range(1, 5), calls = (unsigned)r.range(0, 6);
    eoValueParam<int> a(0, "alpha"); eoValueParam<double> b(0, "beta"); eoValueParam<std::string> c("", "gamma"); eoValueParam<unsigned> d(0, "delta"); eoValueParam<bool> e(false, "epsilon");
    std::vector<eoParam*> all{&a, &b, &c, &d, &e}; r.shuffle(all); all.resize(np);
    auto values = [&] { a.value() = (int)r.range(-500, 500); b.value() = (double)r.range(-5000, 5000) / 8; c.value() = cat("w", r.below(1000)); d.value() = (unsigned)r.below(9999); e.value() = r.flip(); };
    auto line = [&](const std::string& del, bool names) { std::string s; for (size_t i = 0; i < all.size(); ++i) s += (i ? del : "") + (names ? all[i]->longName() : all[i]->getValue()); return s + "\n"; };
    {   bool keep = r.flip(0.3), header = r.flip(), over = r.flip(0.3); std::string del = r.flip() ? " " : ";", fn = cat(scratch(), "/mon.txt"), want; { std::ofstream o(fn); o << "old text\n"; } want = keep ? "old text\n" : "";
        eoFileMonitor fm(fn, del, keep, header, over); for (auto p : all) fm.add(*p); CHECK(slurp(fn) == want, "file", "after creation: ", slurp(fn)); CHECK(fm.getFileName() == fn, "file", "name");
        for (unsigned i = 0; i < calls; ++i) { values(); if (over) want = line(del, false); else { if (i == 0 && header && !keep) want = line(del, true); want += line(del, false); } fm(); CHECK(slurp(fn) == want, "file", "keep ", keep, " header ", header, " overwrite ", over, " call ", i, ": ", slurp(fn), " instead of ", want); }
        event("file"); if (header && calls && !keep && !over) event("header"); if (keep) event("kept"); if (over) event("overwritten"); state(hstr(want)); unlink(fn.c_str()); }
    {   std::ostringstream out; bool names = r.flip(); eoOStreamMonitor om(out, "\t", (unsigned)r.range(0, 25), ' ', names, "="); for (auto p : all) om.add(*p); std::vector<std::string> want; for (auto p : all) want.push_back(p->longName());
        eoStdoutMonitor so; for (auto p : all) so.add(*p); std::vector<std::string> want2 = want; size_t from = q.s.str().size(); unsigned n = calls + 1;
        for (unsigned i = 0; i < n; ++i) { values(); om(); so(); for (auto p : all) { want.push_back((names ? p->longName() + "=" : "") + p->getValue()); want2.push_back(p->getValue()); } }
        // with names, padding may come between the name and its value
        auto glue = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; };
        std::string got = out.str(); auto lines = std::count(got.begin(), got.end(), '\n');
        CHECK(glue(words(got)) == glue(want), "stream", got); CHECK(lines == (long)n + 1, "stream", lines, " lines"); CHECK(words(q.s.str().substr(from)) == want2, "stream", "stdout: ", q.s.str().substr(from)); event("stream"); }
    {   std::string dir = cat(scratch(), "/snap", idx); unsigned freq = (unsigned)r.range(1, 4), nv = (unsigned)r.range(1, 4), len = (unsigned)r.below(6);
        eoFileSnapshot fs(dir, freq, "gen"); std::vector<eoValueParam<std::vector<double>>*> vs; for (unsigned i = 0; i < nv; ++i) { vs.push_back(new eoValueParam<std::vector<double>>(std::vector<double>(), cat("v", i))); fs.add(*vs.back()); }
        bool refused = false; try { fs.add(a); } catch (eoException&) { refused = true; } CHECK(refused, "snapshot", "accepted a number");
        for (unsigned k = 0; k < 5; ++k) { for (auto v : vs) { v->value().clear(); for (unsigned i = 0; i < len; ++i) v->value().push_back((double)r.range(-99, 99) / 4); } fs();
            bool writes = k % freq == 0; CHECK(fs.hasChanged() == writes, "snapshot", "call ", k); std::string fn = cat(dir, "/gen", k + 1); CHECK(exists(fn) == writes, "snapshot", "every ", freq, " call ", k, " file ", fn);
            if (writes && exists(fn)) { std::ostringstream w; for (unsigned i = 0; i < len; ++i) { if (nv == 1) w << i << " " << vs[0]->value()[i]; else for (auto v : vs) w << v->value()[i] << " "; w << "\n"; } CHECK(words(slurp(fn)) == words(w.str()), "snapshot", nv, " columns: ", slurp(fn), " instead of ", w.str()); event("snapshot"); unlink(fn.c_str()); } }
        for (auto v : vs) delete v; rmdir(dir.c_str()); }
}
