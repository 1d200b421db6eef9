#include "mpi.h"
#include "world.h"
#include <csignal>
#include <deque>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace mon;
namespace {
enum Op { SEND, SSEND, RECV, PROBE, IPROBE, BARRIER, BCAST, NOTE, DONE };
struct Req { int op, peer, tag, type; long a, b; unsigned len; };
struct Rep { int source, tag, type; unsigned len; };
int my_fd = -1, my_rank = -1, my_size = 0;
unsigned last_len = 0;

bool put(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    while (n) {
        ssize_t k = ::send(fd, c, n, MSG_NOSIGNAL);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
        c += k; n -= k;
    }
    return true;
}
bool get(int fd, void* p, size_t n) {
    char* c = (char*)p;
    while (n) {
        ssize_t k = ::read(fd, c, n);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
        c += k; n -= k;
    }
    return true;
}
// the router is gone: the case is over
void lost() { _exit(0); }
Rep call(Req q, const void* data, std::string* in) {
    if (!put(my_fd, &q, sizeof q) || (q.len && !put(my_fd, data, q.len))) lost();
    Rep p;
    if (!get(my_fd, &p, sizeof p)) lost();
    std::string buf(p.len, 0);
    if (p.len && !get(my_fd, &buf[0], p.len)) lost();
    if (in) in->swap(buf);
    return p;
}
struct Msg { int src, tag, type; std::string data; bool sync; };
struct Rank {
    int fd = -1; pid_t pid = 0; bool alive = true, pending = false, waiting = false, done = false;
    Req q; std::string data;
    std::deque<Msg> in;
    double weight = 1;
};
} // namespace

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = my_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = my_size; return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { call(Req{SEND, d, tag, t, 0, 0, unsigned(n * t)}, b, 0); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { call(Req{SSEND, d, tag, t, 0, 0, unsigned(n * t)}, b, 0); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status* st) {
    std::string in;
    Rep p = call(Req{RECV, s, tag, t, 0, 0, 0}, 0, &in);
    if (p.type != t) { fail("mpi-type", cat("a message of another type than the one received: ", p.type, " bytes per item, expected ", t)); _exit(3); }
    if (in.size() > size_t(n) * t) { fail("mpi-truncate", cat("a message of ", in.size(), " bytes received into a buffer of ", n * t)); _exit(3); }
    memcpy(b, in.data(), in.size());
    if (st) { st->MPI_SOURCE = p.source; st->MPI_TAG = p.tag; st->MPI_ERROR = 0; }
    last_len = p.len;
    return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status* st) {
    Rep p = call(Req{PROBE, s, tag, 0, 0, 0, 0}, 0, 0);
    if (st) { st->MPI_SOURCE = p.source; st->MPI_TAG = p.tag; st->MPI_ERROR = 0; }
    last_len = p.type;
    return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm, int* flag, MPI_Status* st) {
    Rep p = call(Req{IPROBE, s, tag, 0, 0, 0, 0}, 0, 0);
    *flag = p.source >= 0;
    if (st) { st->MPI_SOURCE = p.source; st->MPI_TAG = p.tag; st->MPI_ERROR = 0; }
    last_len = p.type;
    return 0;
}
int MPI_Get_count(const MPI_Status*, MPI_Datatype t, int* n) { *n = last_len / t; return 0; }
int MPI_Barrier(MPI_Comm) { call(Req{BARRIER, 0, 0, 0, 0, 0, 0}, 0, 0); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    std::string in;
    call(Req{BCAST, root, 0, t, 0, 0, unsigned(my_rank == root ? n * t : 0)}, b, &in);
    if (my_rank != root) memcpy(b, in.data(), std::min(in.size(), size_t(n) * t));
    return 0;
}
}

namespace world {
int rank() { return my_rank; }
int size() { return my_size; }
void note(const char* what, long a, long b) {
    Req q{NOTE, 0, 0, 0, a, b, unsigned(strlen(what))};
    if (!put(my_fd, &q, sizeof q) || !put(my_fd, what, q.len)) lost();
}

Result run(Rand& r, int n, const std::function<void()>& body) {
    Result out;
    std::vector<Rank> w(n);
    u64 child_seed = r.next();
    (void)child_seed;
    bool sync = r.below(3) == 0;
    for (auto& x : w) x.weight = r.below(3) ? 1 : (r.flip() ? 0.02 : 20);
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < n; ++i) {
        int s[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) { perror("socketpair"); _exit(98); }
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(98); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int j = 0; j < i; ++j) close(w[j].fd);
            close(s[0]);
            my_fd = s[1]; my_rank = i; my_size = n;
            int code = 0;
            try { body(); }
            catch (std::exception& e) { fail("rank-exception", cat("rank ", i, ": ", e.what())); code = 3; }
            catch (...) { fail("rank-exception", cat("rank ", i, ": unknown exception")); code = 3; }
            if (!code) { Req q{DONE, 0, 0, 0, 0, 0, 0}; put(my_fd, &q, sizeof q); }
            fflush(stdout); fflush(stderr);
            _exit(code);
        }
        close(s[1]);
        w[i].fd = s[0]; w[i].pid = pid;
    }
    bool stuck = false, bad = false;
    auto reply = [&](Rank& x, int src, int tag, int type, const std::string& d) {
        Rep p{src, tag, type, unsigned(d.size())};
        x.pending = x.waiting = false;
        put(x.fd, &p, sizeof p) && (d.empty() || put(x.fd, d.data(), d.size()));
    };
    // first matching message of each source: messages of one source do not overtake
    auto match = [&](Rank& x) {
        std::vector<size_t> m;
        std::set<int> seen;
        for (size_t i = 0; i < x.in.size(); ++i) {
            if (x.q.peer != MPI_ANY_SOURCE && x.in[i].src != x.q.peer) continue;
            if (x.q.tag != MPI_ANY_TAG && x.in[i].tag != x.q.tag) continue;
            if (seen.insert(x.in[i].src).second) m.push_back(i);
        }
        return m;
    };
    while (!bad) {
        // until every living rank is blocked in a call
        for (int i = 0; i < n && !bad; ++i) {
            Rank& x = w[i];
            while (x.alive && !x.pending) {
                struct pollfd p{x.fd, POLLIN, 0};
                int k;
                do k = poll(&p, 1, 40000); while (k < 0 && errno == EINTR);
                if (k == 0) { fail("rank-hang", cat("rank ", i, " computes without end")); bad = true; break; }
                if (!get(x.fd, &x.q, sizeof x.q)) { x.alive = false; break; }
                x.data.assign(x.q.len, 0);
                if (x.q.len && !get(x.fd, &x.data[0], x.q.len)) { x.alive = false; break; }
                if (x.q.op == NOTE) { out.log.push_back(Entry{i, x.data, x.q.a, x.q.b}); continue; }
                if (x.q.op == DONE) { x.done = true; continue; }
                x.pending = true;
                ++out.calls;
            }
            if (!x.alive && !x.done) bad = true; // died: reported below
        }
        if (bad) break;
        std::vector<int> can;
        int living = 0, barrier = 0, bcast = 0;
        for (auto& x : w) if (x.alive) { ++living; if (x.q.op == BARRIER) ++barrier; if (x.q.op == BCAST) ++bcast; }
        if (!living) break;
        for (int i = 0; i < n; ++i) {
            Rank& x = w[i];
            if (!x.alive || x.waiting) continue;
            if (x.q.op == SEND || x.q.op == SSEND || x.q.op == IPROBE) can.push_back(i);
            else if (x.q.op == BARRIER) { if (barrier == n) can.push_back(i); }
            else if (x.q.op == BCAST) { if (bcast == n) can.push_back(i); }
            else if (!match(x).empty()) can.push_back(i);
        }
        if (can.empty()) { stuck = true; break; }
        double total = 0;
        for (int i : can) total += w[i].weight;
        double v = r.u01() * total;
        int c = can.back();
        for (int i : can) { v -= w[i].weight; if (v <= 0) { c = i; break; } }
        if (can.size() > 1) ++out.choices;
        Rank& x = w[c];
        int op = x.q.op;
        out.schedule = mix(out.schedule, mix(c * 16 + op));
        if (op == SEND || op == SSEND) {
            int d = x.q.peer;
            if (d < 0 || d >= n) { fail("mpi-rank", cat("rank ", c, " sends to rank ", d, " of ", n)); bad = true; break; }
            if (!w[d].alive) { fail("send-to-released", cat("rank ", c, " sends a message with tag ", x.q.tag, " to rank ", d, ", which has already left")); bad = true; break; }
            bool s = sync || op == SSEND;
            w[d].in.push_back(Msg{c, x.q.tag, x.q.type, x.data, s});
            ++out.messages;
            if (s) x.waiting = true; else reply(x, 0, 0, 0, "");
        } else if (op == BARRIER) {
            for (auto& y : w) reply(y, 0, 0, 0, "");
        } else if (op == BCAST) {
            std::string d = w[x.q.peer].data;
            for (auto& y : w) reply(y, 0, 0, 0, d);
        } else {
            auto m = match(x);
            if (m.empty()) reply(x, -1, -1, 0, ""); // IPROBE
            else {
                size_t k = m[r.below(m.size())];
                Msg g = x.in[k];
                out.schedule = mix(out.schedule, g.src);
                if (op == RECV) {
                    x.in.erase(x.in.begin() + k);
                    reply(x, g.src, g.tag, g.type, g.data);
                    if (g.sync) reply(w[g.src], 0, 0, 0, "");
                } else reply(x, g.src, g.tag, (int)g.data.size(), "");
            }
        }
    }
    if (stuck) {
        std::string s;
        static const char* N[] = {"send", "send", "receive", "probe", "probe", "barrier", "broadcast"};
        for (int i = 0; i < n; ++i) s += cat(" rank ", i, w[i].alive ? cat(" blocked in ", N[w[i].q.op], " (peer ", w[i].q.peer, ", tag ", w[i].q.tag, ")") : std::string(" has left"), ";");
        fail("deadlock", "no rank can go on:" + s);
    }
    bool clean = !stuck && !bad;
    for (int i = 0; i < n; ++i) {
        Rank& x = w[i];
        if (x.alive) kill(x.pid, SIGKILL);
        close(x.fd);
        int st = 0;
        while (waitpid(x.pid, &st, 0) < 0 && errno == EINTR) {}
        if (!x.alive && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            clean = false;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3))
                fail("rank-crash", cat("rank ", i, " of ", n, WIFEXITED(st) ? cat(" ended with status ", WEXITSTATUS(st)) : cat(" was killed by signal ", WTERMSIG(st))));
        }
        if (!x.alive && !x.done) clean = false;
    }
    if (clean)
        for (int i = 0; i < n; ++i)
            if (!w[i].in.empty()) { fail("stray-message", cat(w[i].in.size(), " messages to rank ", i, " never received, the first with tag ", w[i].in[0].tag, " from rank ", w[i].in[0].src)); clean = false; }
    out.completed = clean;
    event("mpi_message", out.messages);
    event("mpi_choice", out.choices);
    state(out.schedule);
    return out;
}
}
