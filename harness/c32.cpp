// C32: distributed jobs under a controlled message-passing world.
#include "fakempi/world.h"
#include <mpi/eoMpi.h>
#include <mpi/eoParallelApply.h>
#include <mpi/eoTerminateJob.h>
#include <mpi/eoMpiAssignmentAlgorithm.h>
#include "c32.h"
#include <memory>

using namespace mon;
using namespace eo::mpi;
using c32::Item;

namespace {
enum { DYN, STAT };
// who works for whom, and how tasks are given out
struct Plan {
    int n, master, kind, ctor;
    std::vector<int> workers; // in the order given
    std::shared_ptr<AssignmentAlgorithm> make(int runs) const {
        std::shared_ptr<AssignmentAlgorithm> a;
        switch (ctor) {
        case 0: if (kind == DYN) a.reset(new DynamicAssignmentAlgorithm()); else a.reset(new StaticAssignmentAlgorithm(runs)); break;
        case 1: if (kind == DYN) a.reset(new DynamicAssignmentAlgorithm(workers[0])); else a.reset(new StaticAssignmentAlgorithm(workers[0], runs)); break;
        case 2: if (kind == DYN) a.reset(new DynamicAssignmentAlgorithm(workers.front(), workers.back())); else a.reset(new StaticAssignmentAlgorithm(workers.front(), workers.back(), runs)); break;
        case 3: if (kind == DYN) a.reset(new DynamicAssignmentAlgorithm(workers.front(), REST_OF_THE_WORLD)); else a.reset(new StaticAssignmentAlgorithm(workers.front(), REST_OF_THE_WORLD, runs)); break;
        default: if (kind == DYN) a.reset(new DynamicAssignmentAlgorithm(workers)); else a.reset(new StaticAssignmentAlgorithm(workers, runs));
        }
        return a;
    }
    bool works(int rk) const { return std::find(workers.begin(), workers.end(), rk) != workers.end(); }
    std::string str() const { return cat(n, " ranks, master ", master, ", workers ", show(workers), kind == DYN ? ", dynamic" : ", static", ", constructor ", ctor); }
};
Plan plan(Rand& r, int maxn = 6) {
    Plan p;
    p.n = (int)r.range(2, maxn);
    p.kind = (int)r.below(2);
    p.ctor = (int)r.below(5);
    p.master = 0;
    if (p.ctor == 0) for (int i = 1; i < p.n; ++i) p.workers.push_back(i);
    else if (p.ctor == 1) p.workers.push_back((int)r.range(1, p.n - 1));
    else if (p.ctor == 2) { int a = (int)r.range(1, p.n - 1), b = (int)r.range(a, p.n - 1); for (int i = a; i <= b; ++i) p.workers.push_back(i); }
    else if (p.ctor == 3) { for (int i = (int)r.range(1, p.n - 1); i < p.n; ++i) p.workers.push_back(i); }
    else {
        p.master = (int)r.below(p.n);
        for (int i = 0; i < p.n; ++i) if (i != p.master) p.workers.push_back(i);
        r.shuffle(p.workers);
        p.workers.resize((size_t)r.range(1, p.workers.size()));
    }
    if (p.ctor == 1 && p.n > 2 && r.flip(0.3)) { p.master = p.workers[0]; do p.workers[0] = (int)r.below(p.n); while (p.workers[0] == p.master); }
    return p;
}

// the work done on one element, and who did it
struct Work : public eoUF<Item&, void> {
    void operator()(Item& x) override {
        world::note("apply", x.id, x.round);
        x.work();
    }
};
// observers of the master
struct SawSend : public SendTaskParallelApply<Item> {
    void operator()(int w) override { world::note("hand", w); (*_wrapped)(w); world::note("handed", w); }
};
struct SawResponse : public HandleResponseParallelApply<Item> {
    void operator()(int w) override { world::note("answer", w); (*_wrapped)(w); world::note("answered", w); }
};
struct SawProcess : public ProcessTaskParallelApply<Item> {
    void operator()() override { world::note("begin"); (*_wrapped)(); world::note("end"); }
};
struct Boom : public IsFinishedParallelApply<Item> {
    long left;
    explicit Boom(long k) : left(k) {}
    bool operator()() override { if (left-- <= 0) throw std::runtime_error("stop"); return (*_wrapped)(); }
};
struct Table { std::vector<Item> items, expect; };
Table table(Rand& r, int round, size_t n, bool big) {
    Table t;
    for (size_t i = 0; i < n; ++i) {
        Item x = Item::random(r, big);
        x.id = (long)i; x.round = round; x.count = 0;
        t.items.push_back(x);
        x.work();
        t.expect.push_back(x);
    }
    return t;
}

// offline: judges the log of a finished world
void judge(const world::Result& res, const Plan& p, const std::vector<size_t>& sizes, const std::vector<long>& packets, const std::string& what, bool aborted = false) {
    std::map<std::pair<long, long>, int> done;
    std::map<int, int> busy;              // worker -> tasks handed and not answered
    std::map<int, std::map<long, long>> tasks; // round -> worker -> tasks
    std::set<int> released;
    long round = 0;
    bool back = false;
    for (auto& e : res.log) {
        if (e.what == "apply") {
            CHECK(p.works(e.rank), "apply-outsider", what, ": rank ", e.rank, " processed an element");
            CHECK(e.b == round && !back, "late-apply", what, ": element ", e.a, " of round ", e.b, " processed after the master had come back");
            CHECK(++done[std::make_pair(e.b, e.a)] == 1, "applied-twice", what, ": element ", e.a, " of round ", e.b, " processed more than once");
            event("element_processed");
        } else if (e.what == "hand") {
            CHECK(e.rank == p.master, "hand-outsider", what, ": rank ", e.rank, " gave out a task");
            CHECK(p.works((int)e.a), "hand-to-outsider", what, ": a task for rank ", e.a);
            CHECK(busy[(int)e.a] == 0, "hand-busy", what, ": a task given to rank ", e.a, ", which has not answered the previous one");
            ++busy[(int)e.a];
            ++tasks[(int)round][e.a];
            event("task_given");
        } else if (e.what == "answered") {
            CHECK(--busy[(int)e.a] == 0, "answer-unasked", what, ": an answer from rank ", e.a, " without a task");
        } else if (e.what == "returned") {
            for (auto& b : busy) CHECK(b.second == 0, "returned-early", what, ": the master came back while rank ", b.first, " had not answered");
            back = true;
        } else if (e.what == "next") { ++round; back = false; }
        else if (e.what == "released") released.insert(e.rank);
    }
    if (!res.completed) return; // reported by the world
    for (int w : p.workers) CHECK(released.count(w), "not-released", what, ": worker ", w, " never came back");
    if (aborted) return;
    for (size_t k = 0; k < sizes.size(); ++k) {
        for (size_t i = 0; i < sizes[k]; ++i)
            CHECK(done[std::make_pair((long)k, (long)i)] == 1, "not-applied", what, ": element ", i, " of round ", k, " processed ", done[std::make_pair((long)k, (long)i)], " times");
        long sum = 0, lo = 1L << 40, hi = 0;
        for (int w : p.workers) { long c = tasks[(int)k][w]; sum += c; lo = std::min(lo, c); hi = std::max(hi, c); }
        CHECK(sum == packets[k], "packets", what, ": ", sum, " tasks given out in round ", k, ", expected ", packets[k]);
        if (p.kind == STAT) { CHECK(hi - lo <= 1, "unbalanced", what, ": tasks per worker between ", lo, " and ", hi); event("static_shares"); }
    }
    state(mix(hstr(p.str()), res.schedule));
}
} // namespace

UNIT_T(apply, 160, 900, 60, "element_processed,task_given,static_shares,mpi_choice,idle_worker,empty_table") {
    Plan p = plan(r);
    int rounds = 1 + (int)r.below(3);
    int packet = r.flip(0.4) ? 1 : (int)r.range(1, 9);
    bool big = r.below(8) == 0;
    bool wrapped = r.flip(0.8);
    std::vector<Table> t;
    std::vector<size_t> sizes;
    std::vector<long> packets;
    for (int k = 0; k < rounds; ++k) {
        size_t n = (size_t)r.size(0, big ? 8 : idx % 40 == 7 ? 300 : 30);
        if (k == 0 && idx % 16 == 3) n = 0;
        if (k == 0 && idx % 16 == 4) n = p.workers.size() > 1 ? 1 : n;
        if (n == 0) event("empty_table");
        sizes.push_back(n);
        packets.push_back((long)((n + packet - 1) / packet));
        if ((size_t)packets.back() < p.workers.size()) event("idle_worker");
        t.push_back(table(r, k, n, big));
    }
    if (idx < 2) sample(cat(p.str(), ", tables ", show(sizes), ", packet ", packet));
    auto res = world::run(r, p.n, [&] {
        int me = Node::comm().rank();
        if (me != p.master && !p.works(me)) return;
        auto assign = p.make((int)packets[0]);
        Work work;
        {
            SawSend ss; SawResponse sr; SawProcess sp;
            ParallelApplyStore<Item> store(work, p.master, packet);
            store.wrapSendTask(&ss);
            store.wrapHandleResponse(&sr);
            if (wrapped) store.wrapProcessTask(&sp);
            store.data(t[0].items);
            ParallelApply<Item> job(*assign, p.master, store);
            CHECK(job.isMaster() == (me == p.master), "role", p.str(), ": rank ", me);
            if (me != p.master) { job.run(); world::note("released"); }
            else {
                for (int k = 0; k < rounds; ++k) {
                    if (k) { world::note("next"); store.data(t[k].items); assign->reinit((int)packets[k]); }
                    job.run();
                    world::note("returned", k);
                    CHECK(t[k].items.size() == t[k].expect.size(), "table-size", p.str());
                    for (size_t i = 0; i < t[k].items.size(); ++i) {
                        std::string why = t[k].items[i].differs(t[k].expect[i]);
                        CHECK(why.empty(), "result", p.str(), ", table of ", sizes[k], ", packet ", packet, ", element ", i, ": ", why);
                    }
                    CHECK(assign->availableWorkers() == (int)p.workers.size(), "available", p.str(), ": ", assign->availableWorkers(), " available workers afterwards");
                }
                EmptyJob stop(*assign, p.master);
                if (r.flip()) stop.run();
            }
        }
        Node::comm().~communicator();
    });
    judge(res, p, sizes, packets, cat(p.str(), ", tables ", show(sizes), ", packet ", packet));
}

// a job that ends when its tasks are done: no termination message needed;
// and one whose master fails half-way must not keep its workers
UNIT_T(one_shot, 120, 600, 60, "element_processed,task_given,master_failed,mpi_choice") {
    Plan p = plan(r);
    int packet = (int)r.range(1, 4);
    size_t n = (size_t)r.size(0, 30);
    bool fails = r.flip(0.4);
    Table t = table(r, 0, n, false);
    long packets = (long)((n + packet - 1) / packet);
    long after = (long)r.below(packets + 1);
    auto res = world::run(r, p.n, [&] {
        int me = Node::comm().rank();
        if (me != p.master && !p.works(me)) return;
        auto assign = p.make((int)packets);
        Work work;
        {
            SawSend ss; SawResponse sr; Boom boom(after);
            ParallelApplyStore<Item> store(work, p.master, packet);
            store.wrapSendTask(&ss);
            store.wrapHandleResponse(&sr);
            if (fails) store.wrapIsFinished(&boom);
            store.data(t.items);
            OneShotJob<ParallelApplyData<Item> > job(*assign, p.master, store);
            if (me != p.master) { job.run(); world::note("released"); }
            else {
                bool threw = false;
                try { job.run(); } catch (std::runtime_error&) { threw = true; }
                world::note("returned");
                CHECK(threw == fails, "exception", p.str(), ": failure of the master ", threw ? "reported without cause" : "swallowed");
                long good = 0;
                for (size_t i = 0; i < n; ++i) {
                    std::string why = t.items[i].differs(t.expect[i]);
                    if (why.empty()) ++good;
                    else CHECK(fails && t.items[i].count == 0, "result", p.str(), ", element ", i, ": ", why);
                }
                if (fails) {
                    world::note("failed");
                    // every task that was given out has its answer in place
                    CHECK(good == std::min((long)n, after * packet), "lost-answers", p.str(), ": ", good, " elements processed, ", after, " packets of ", packet, " had been sent");
                }
            }
        }
        Node::comm().~communicator();
    });
    for (auto& e : res.log) if (e.what == "failed") event("master_failed");
    judge(res, p, {n}, {packets}, cat(p.str(), ", one shot of ", n, fails ? ", failing" : ""), fails);
}

// masters that are themselves workers of another master
UNIT_T(roles, 40, 200, 60, "group_processed,mpi_choice") {
    int subs = (int)r.range(1, 2), per = (int)r.range(1, 2);
    int n = 1 + subs + subs * per;
    size_t groups = (size_t)r.range(1, 4);
    std::vector<c32::Group> g(groups), expect;
    for (size_t i = 0; i < groups; ++i) {
        size_t k = (size_t)r.size(0, 7);
        for (size_t j = 0; j < k; ++j) { Item x = Item::random(r, false); x.id = (long)(i * 100 + j); x.round = 0; x.count = 0; g[i].items.push_back(x); }
        c32::Group e = g[i];
        for (auto& x : e.items) { x.work(); x.value *= 2; }
        expect.push_back(e);
    }
    std::vector<size_t> sizes;
    for (auto& x : g) sizes.push_back(x.items.size());
    auto res = world::run(r, n, [&] {
        int me = Node::comm().rank();
        Work work;
        auto subtask = [&](std::vector<Item>& v, int boss) {
            std::vector<int> ws;
            for (int i = 0; i < per; ++i) ws.push_back(1 + subs + (boss - 1) * per + i);
            DynamicAssignmentAlgorithm algo(ws);
            ParallelApplyStore<Item> store(work, boss);
            store.data(v);
            ParallelApply<Item> job(algo, boss, store);
            job.run();
        };
        if (me <= subs) {
            struct Sub : public eoUF<c32::Group&, void> {
                std::function<void(c32::Group&)> f;
                void operator()(c32::Group& x) override { f(x); }
            } sub;
            sub.f = [&](c32::Group& x) { subtask(x.items, me); for (auto& y : x.items) y.value *= 2; };
            DynamicAssignmentAlgorithm algo(1, subs);
            {
                ParallelApplyStore<c32::Group> store(sub, 0);
                store.data(g);
                ParallelApply<c32::Group> job(algo, 0, store);
                job.run();
                if (me == 0) { EmptyJob stop(algo, 0); }
                else {
                    std::vector<int> ws;
                    for (int i = 0; i < per; ++i) ws.push_back(1 + subs + (me - 1) * per + i);
                    DynamicAssignmentAlgorithm below(ws);
                    EmptyJob stop(below, me);
                }
            }
            if (me == 0)
                for (size_t i = 0; i < groups; ++i) {
                    CHECK(g[i].items.size() == expect[i].items.size(), "group-size", "group ", i, " of ", show(sizes));
                    for (size_t j = 0; j < expect[i].items.size() && j < g[i].items.size(); ++j) {
                        std::string why = g[i].items[j].differs(expect[i].items[j]);
                        CHECK(why.empty(), "group-result", "group ", i, " of ", show(sizes), ", element ", j, ": ", why);
                    }
                }
        } else {
            std::vector<Item> none;
            subtask(none, 1 + (me - 1 - subs) / per);
            world::note("released");
        }
        Node::comm().~communicator();
    });
    std::map<long, int> done;
    int released = 0;
    for (auto& e : res.log) if (e.what == "apply") { ++done[e.a]; event("group_processed"); CHECK(e.rank > subs, "role-apply", "rank ", e.rank); } else if (e.what == "released") ++released;
    if (!res.completed) return;
    if (done.empty()) event("group_processed");
    for (size_t i = 0; i < groups; ++i) for (size_t j = 0; j < sizes[i]; ++j) CHECK(done[(long)(i * 100 + j)] == 1, "role-count", "element ", j, " of group ", i, " processed ", done[(long)(i * 100 + j)], " times");
    CHECK(released == subs * per, "role-released", released, " of ", subs * per, " workers released");
}

// the assignment algorithms alone, against a model
UNIT_T(assignment, 120, 800, 60, "got,refused,confirmed,reset") {
    Plan p = plan(r, 9);
    int runs = (int)r.size(0, 40);
    if (idx % 10 == 0) runs = (int)r.range(1000, 100000);
    u64 seed = r.next();
    auto res = world::run(r, p.n, [&] {
        if (Node::comm().rank()) return;
        Rand q(seed);
        auto a = p.make(runs);
        std::string what = cat(p.str(), ", ", runs, " runs");
        std::set<int> idle(p.workers.begin(), p.workers.end());
        std::map<int, long> given;
        std::vector<int> out;
        long left = runs, got = 0, refused = 0, confirmed = 0, resets = 0;
        auto look = [&] {
            std::vector<int> i = a->idles();
            CHECK(a->availableWorkers() == (int)idle.size(), "avail", what, ": ", a->availableWorkers(), " available, ", idle.size(), " idle");
            CHECK(std::set<int>(i.begin(), i.end()) == idle && i.size() == idle.size(), "idles", what, ": idle ", show(i));
        };
        look();
        long steps = runs > 500 ? 3000 : q.range(5, 200);
        for (long s = 0; s < steps; ++s) {
            if (q.flip(0.55) || out.empty()) {
                int w = a->get();
                if (w == -1) {
                    ++refused;
                    if (p.kind == DYN) CHECK(idle.empty(), "refused", what, ": no worker although ", idle.size(), " are idle");
                    else {
                        // every idle worker has had its share
                        long base = runs > 0 ? runs / (long)p.workers.size() : 0;
                        for (int i : idle) CHECK(given[i] >= base, "refused", what, ": no worker although ", i, " is idle with ", given[i], " tasks");
                        if (out.empty()) CHECK(left == 0, "refused", what, ": no worker, ", left, " runs left");
                    }
                    if (out.empty()) {
                        if (p.kind == STAT) {
                            long lo = 1L << 40, hi = 0;
                            for (int w2 : p.workers) { lo = std::min(lo, given[w2]); hi = std::max(hi, given[w2]); }
                            CHECK(hi - lo <= 1, "shares", what, ": shares between ", lo, " and ", hi);
                        }
                        runs = (int)q.size(0, 30);
                        a->reinit(runs);
                        what = cat(p.str(), ", reset to ", runs, " runs");
                        left = runs; given.clear(); ++resets;
                        look();
                    }
                } else {
                    ++got;
                    CHECK(idle.count(w), "busy", what, ": rank ", w, " given out although busy or unknown");
                    idle.erase(w);
                    ++given[w];
                    --left;
                    if (p.kind == STAT) {
                        CHECK(left >= 0, "toomany", what, ": more tasks than runs");
                        long top = (runs + (long)p.workers.size() - 1) / (long)p.workers.size();
                        CHECK(given[w] <= top, "share", what, ": rank ", w, " was given ", given[w], " tasks");
                    }
                    out.push_back(w);
                    look();
                }
            } else {
                size_t k = q.below(out.size());
                int w = out[k];
                out.erase(out.begin() + k);
                a->confirm(w);
                idle.insert(w);
                ++confirmed;
                look();
            }
        }
        // let the static one run out
        if (p.kind == STAT) {
            for (long guard = 0; guard < 200000 && left > 0; ++guard) {
                int w = a->get();
                if (w == -1) {
                    CHECK(!out.empty(), "stuck", what, ": no worker, none busy, ", left, " runs left");
                    if (out.empty()) break;
                    a->confirm(out.back()); idle.insert(out.back()); out.pop_back();
                } else { CHECK(idle.count(w), "busy", what, ": rank ", w); idle.erase(w); ++given[w]; --left; out.push_back(w); }
            }
            while (!out.empty()) { a->confirm(out.back()); idle.insert(out.back()); out.pop_back(); }
            look();
            CHECK(a->get() == -1, "toomany", what, ": a worker after all runs were given out");
            long lo = 1L << 40, hi = 0, sum = 0;
            for (int w : p.workers) { lo = std::min(lo, given[w]); hi = std::max(hi, given[w]); sum += given[w]; }
            CHECK(hi - lo <= 1 && sum == runs, "shares", what, ": shares between ", lo, " and ", hi, ", sum ", sum);
        }
        world::note("stats", got, refused);
        world::note("stats2", confirmed, resets);
    });
    for (auto& e : res.log) {
        if (e.what == "stats") { event("got", e.a); event("refused", e.b); state(mix(hstr(p.str()), e.a * 1000 + e.b)); }
        else { event("confirmed", e.a); event("reset", e.b); }
    }
}
