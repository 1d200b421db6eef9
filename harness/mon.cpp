#include "mon.h"
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <mutex>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

namespace mon {
namespace {
struct Shared { volatile u64 current; volatile u64 done; };
Shared* shared = nullptr;
std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
std::mutex mtx; // harness units may observe from several threads
std::map<std::string, u64> events;
std::unordered_set<u64> states;
std::vector<std::string> samples;
struct Viol { std::string key, msg; u64 cs; };
std::vector<Viol> viols;
std::map<std::string, int> violcount;
u64 g_case = 0, g_seed = 1;
u64 g_trace = 0; // everything observed during the case, in order
bool g_thorough = false;
std::string g_scratch = ".", g_out;
int g_timeout = 60;

std::string esc(const std::string& s) {
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
void on_alarm(int) { _exit(97); }
void arm(int seconds) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_REAL, &t, nullptr);
}
} // namespace

Reg::Reg(const Unit& u) { units().push_back(u); }
void event(const char* name, u64 n) { std::lock_guard<std::mutex> l(mtx); events[name] += n; for (; *name; ++name) g_trace = g_trace * 1099511628211ULL + (unsigned char)*name; }
void state(u64 h) { std::lock_guard<std::mutex> l(mtx); g_trace = mix(g_trace, h); if (states.size() < 400000) states.insert(h); }
void sample(const std::string& s) { std::lock_guard<std::mutex> l(mtx); if (samples.size() < 3) samples.push_back(s.substr(0, 400)); }
void fail(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(mtx);
    if (violcount[key]++ >= 2 || viols.size() >= 60) return;
    viols.push_back(Viol{key, msg.substr(0, 1500), g_case});
    // written at once: a later crash of the same process must not lose it
    if (FILE* f = fopen((g_out + ".viol").c_str(), "a")) {
        fprintf(f, "{\"key\":\"%s\",\"msg\":\"%s\",\"case\":%llu}\n", esc(key).c_str(), esc(viols.back().msg).c_str(), (unsigned long long)g_case);
        fclose(f);
    }
}
u64 case_no() { return g_case; }
u64 run_seed() { return g_seed; }
bool thorough() { return g_thorough; }
const char* scratch() { return g_scratch.c_str(); }

static void report(const std::string& out) {
    std::string tmp = out + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) _exit(98);
    fprintf(f, "{\"events\":{");
    bool first = true;
    for (auto& e : events) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    std::string st = out + ".states";
    f = fopen(st.c_str(), "wb");
    if (f) {
        for (u64 s : states) fwrite(&s, 8, 1, f);
        fclose(f);
    }
    rename(tmp.c_str(), out.c_str());
}
} // namespace mon

using namespace mon;

int mon_init_library(u64 seed); // per harness: reset the library's global state

u64 __attribute__((weak)) mon_library_probe() { return 0; }
static void run_case(const Unit* u, u64 s, u64 c) {
    g_trace = 0;
    Rand r(s);
    mon_init_library(mix(s, 77));
    try {
        u->fn(r, c);
    } catch (std::exception& e) {
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        fail(cat("exception:", n ? n : "?"), e.what());
        free(n);
    } catch (const char* e) {
        fail("exception:cstring", e);
    } catch (...) {
        fail("exception:other", "unknown exception escaped");
    }
    u64 probe = mon_library_probe();
    g_trace = mix(g_trace, probe);
}
// leaves other bytes in freed memory and other states in foreign generators
static void dirty(u64 c) {
    srand((unsigned)(c * 7919 + getpid()));
    std::vector<char*> v;
    for (size_t i = 0; i < 400; ++i) { size_t n = 8 + (i * 37) % 700; char* p = (char*)malloc(n); memset(p, (int)(i * 31 + c), n); v.push_back(p); }
    for (char* p : v) free(p);
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") {
            for (auto& u : units())
                printf("%s\t%llu\t%llu\t%d\t%s\n", u.name, (unsigned long long)u.quick, (unsigned long long)u.thorough, u.case_timeout, u.needs);
            return 0;
        }
        if (i + 1 < argc) { o[a] = argv[i + 1]; ++i; }
    }
    const Unit* u = nullptr;
    for (auto& x : units()) if (o["--unit"] == x.name) u = &x;
    if (!u) { fprintf(stderr, "unknown unit\n"); return 98; }
    g_seed = strtoull(o["--seed"].c_str(), 0, 10);
    u64 from = strtoull(o["--from"].c_str(), 0, 10), to = strtoull(o["--to"].c_str(), 0, 10);
    g_thorough = o["--tier"] == "thorough";
    if (o.count("--scratch")) g_scratch = o["--scratch"];
    g_timeout = u->case_timeout;
    if (o.count("--timeout-scale")) g_timeout *= atoi(o["--timeout-scale"].c_str());
    std::string out = o["--out"];
    g_out = out;
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 98;
    shared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal(SIGALRM, on_alarm);
    bool twice = o.count("--twice");
    FILE* trace = o.count("--trace") ? fopen(o["--trace"].c_str(), "wb") : nullptr;
    for (u64 c = from; c < to; ++c) {
        shared->current = c;
        g_case = c;
        u64 s = mix(mix(g_seed, hstr(u->name)), c);
        arm(g_timeout);
        run_case(u, s, c);
        if (twice || trace) {
            u64 first = g_trace;
            // what the first run left behind must not matter
            if (twice) {
                dirty(c);
                run_case(u, s, c);
                u64 second = g_trace;
                event("repeated");
                if (second != first) fail("not-reproducible", "running the same case twice from the same seed did not give the same observations");
            }
            if (trace) fwrite(&first, 8, 1, trace);
        }
        shared->done = c + 1;
    }
    arm(0);
    if (trace) fclose(trace);
    event("cases", to - from);
    report(out);
    fflush(stdout);
    return 0;
}
