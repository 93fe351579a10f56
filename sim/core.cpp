// Runner: seed search over worker processes, crash attribution, replay, minimisation.
#include "sim.h"
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <dlfcn.h>
#include <cxxabi.h>

namespace sim {

static const uint32_t CAP[NSTREAM] = {1u << 16, 1u << 20, 1u << 16};
static const uint32_t CAPSUM = (1u << 16) + (1u << 20) + (1u << 16);
static const int NCNT = 160;

enum Status : uint32_t { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2 };

struct Shared {
    volatile uint32_t status;
    uint32_t nontriv;
    uint64_t hash, ihash, steps, simns;
    char site[160];
    char vkind[64];
    char vsite[160];
    char vmsg[4096];
    uint32_t n[NSTREAM];          // recorded so far
    struct { char name[56]; uint64_t v; } cnt[NCNT];
    uint32_t nstates; uint64_t states[64];
    uint32_t ntrace; char trc[1 << 16];
    struct { char key[200]; uint64_t v; } kf[64];
    uint32_t ch[1];               // CAPSUM entries follow
};
static size_t shared_size() { return sizeof(Shared) + CAPSUM * 4; }
static uint32_t* chan(Shared* sh, int s) {
    uint32_t off = 0; for (int i = 0; i < s; ++i) off += CAP[i];
    return sh->ch + off;
}

static Shared* sh;                    // current run's shared block
static bool g_replay, g_verbose, g_thorough;
static uint32_t rp_n[NSTREAM]; static const uint32_t* rp[NSTREAM];
static uint64_t prng[NSTREAM][2];
static std::vector<std::string>* g_known;   // "kind|site"
static bool in_child;

static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t rnd(Stream s) {
    uint64_t a = prng[s][0], b = prng[s][1];
    uint64_t r = a + b; b ^= a;
    prng[s][0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    prng[s][1] = (b << 37) | (b >> 27);
    return r;
}
uint32_t drawv(Stream s, uint32_t n, uint32_t gen) {
    uint32_t i = sh->n[s], v;
    if (g_replay) v = (i < rp_n[s] && n) ? rp[s][i] % n : 0;
    else v = n ? gen % n : 0;
    if (i < CAP[s]) { chan(sh, s)[i] = v; sh->n[s] = i + 1; }
    else if (!g_replay) v = 0;
    return v;
}
uint32_t draw(Stream s, uint32_t n) {
    if (n <= 1) return 0;
    return drawv(s, n, g_replay ? 0 : (uint32_t)(rnd(s) >> 16));
}
bool chance(Stream s, uint32_t num, uint32_t den) {
    if (!num) return false;
    return drawv(s, 2, g_replay ? 0 : ((rnd(s) >> 20) % den < num ? 1 : 0)) != 0;
}
double real(double lo, double hi) {
    uint32_t k = draw(W, 4097);
    return lo + (hi - lo) * (double)k / 4096.0;
}
bool replaying() { return g_replay; }
bool thorough() { return g_thorough; }

void site(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(sh->site, sizeof sh->site, fmt, ap); va_end(ap);
}
const char* current_site() { return sh->site; }
void hash(uint64_t v) { uint64_t h = sh->hash ^ (v + 0x9E3779B97F4A7C15ull + (sh->hash << 6) + (sh->hash >> 2)); sh->hash = splitmix(h); }
void hash_bytes(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull; const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    hash(h); hash(n);
}
void ihash(uint64_t v) { uint64_t h = sh->ihash ^ (v + (sh->ihash << 6) + (sh->ihash >> 2)); sh->ihash = splitmix(h); }
void trace(const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (k > (int)sizeof b - 1) k = sizeof b - 1;
    hash_bytes(b, k);
    if (g_verbose && sh->ntrace + k + 2 < sizeof sh->trc) {
        memcpy(sh->trc + sh->ntrace, b, k); sh->ntrace += k; sh->trc[sh->ntrace++] = '\n'; sh->trc[sh->ntrace] = 0;
    }
}
void vtrace(const char* fmt, ...) {
    if (!g_verbose) return;
    char b[1024]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (k > (int)sizeof b - 1) k = sizeof b - 1;
    if (sh->ntrace + k + 2 < sizeof sh->trc - 4096) { memcpy(sh->trc + sh->ntrace, b, k); sh->ntrace += k; sh->trc[sh->ntrace++] = '\n'; sh->trc[sh->ntrace] = 0; }
}
bool verbose() { return g_verbose; }
void count(const char* name, uint64_t n) {
    for (int i = 0; i < NCNT; ++i) {
        if (!sh->cnt[i].name[0]) { strncpy(sh->cnt[i].name, name, sizeof sh->cnt[i].name - 1); sh->cnt[i].v = n; return; }
        if (!strncmp(sh->cnt[i].name, name, sizeof sh->cnt[i].name - 1)) { sh->cnt[i].v += n; return; }
    }
}
void state(uint64_t h) { if (sh->nstates < 64) sh->states[sh->nstates++] = h; }
void nontrivial() { sh->nontriv = 1; }
void core_set_steps(uint64_t st, uint64_t ns) { sh->steps = st; sh->simns = ns; }

[[noreturn]] static void quit(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }
[[noreturn]] void fail_at(const char* kind, const char* where, const char* msg) {
    if (!in_child) { fprintf(stderr, "sim::fail outside a run: %s %s %s\n", kind, where, msg); quit(99); }
    rt_flush();
    snprintf(sh->vkind, sizeof sh->vkind, "%s", kind);
    snprintf(sh->vsite, sizeof sh->vsite, "%s", where);
    snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg);
    trace("VIOLATION %s at %s: %s", kind, where, msg);
    sh->status = ST_VIOLATION;
    quit(77);
}
bool known(const char* kind, const char* where) {
    alloc_fail_off();
    std::string k = std::string(kind) + "|" + where;
    for (auto& x : *g_known) {
        bool m = (x == k) || (!x.empty() && x.back() == '*' && k.compare(0, x.size() - 1, x, 0, x.size() - 1) == 0);
        if (!m) continue;
        for (auto& e : sh->kf) {
            if (!e.key[0]) { snprintf(e.key, sizeof e.key, "%s", x.c_str()); e.v = 1; break; }
            if (x == e.key) { e.v++; break; }
        }
        return true;
    }
    return false;
}
void violation(const char* kind, const char* where, const char* fmt, ...) {
    char b[3900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    rt_quiet(+1);
    bool k = known(kind, where);
    rt_quiet(-1);
    if (k) return;
    fail_at(kind, where, b);
}
void fail(const char* kind, const char* fmt, ...) {
    char b[3900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    rt_quiet(+1);
    if (known(kind, sh->site)) finish();
    fail_at(kind, sh->site, b);
}
void finish() { rt_flush(); sh->status = ST_OK; quit(0); }

// ------------------------------------------------------------------ one run
struct RunResult {
    uint32_t status; std::string kind, where, msg; uint64_t hash;
    bool operator==(const RunResult& o) const { return status == o.status && kind == o.kind && where == o.where && hash == o.hash; }
    bool viol() const { return status == ST_VIOLATION; }
};
static int g_run_cpu = 6;
// A hang is found with the full CPU budget and confirmed, minimised and replayed with smaller ones, any other violation is
// confirmed with a larger one: host noise must not decide whether a run is reproducible.
static const int CPU_CONFIRM = 4, CPU_MINIMAL = 3, CPU_REPLAY = 2, CPU_OTHER = 12;

static void on_terminate() {
    const char* what = "unknown"; char buf[300];
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t) {
        int st; char* d = abi::__cxa_demangle(t->name(), 0, 0, &st); what = d ? d : t->name();
    }
    snprintf(buf, sizeof buf, "std::terminate called (active exception: %s)", what);
    rt_quiet(+1);
    if (known("terminate", sh->site)) finish();
    fail_at("terminate", sh->site, buf);
}
static void on_signal(int sig) {
    const char* k = sig == SIGSEGV ? "crash:SEGV" : sig == SIGABRT ? "crash:ABRT" : sig == SIGFPE ? "crash:FPE" : sig == SIGBUS ? "crash:BUS"
                  : sig == SIGXCPU || sig == SIGALRM ? "hang" : "crash:ILL";
    if (!strcmp(k, "hang")) { // not deterministic in its trace: hash only the site
        sh->hash = 0; sh->ntrace = 0;
    }
    rt_quiet(+1);
    if (known(k, sh->site)) finish();
    fail_at(k, sh->site, sig == SIGXCPU || sig == SIGALRM ? "run exceeded its CPU budget without progress" : "fatal signal inside the library under test");
}

static void child_main(uint64_t seed, uint64_t runno) {
    in_child = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl; rl.rlim_cur = g_run_cpu; rl.rlim_max = g_run_cpu + 5; setrlimit(RLIMIT_CPU, &rl);
    { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_run_cpu * 4 + 20; setitimer(ITIMER_REAL, &it, nullptr); }
    struct rlimit co = {0, 0}; setrlimit(RLIMIT_CORE, &co);
    static char altstk[65536]; stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    for (int s = 0; s < NSTREAM; ++s) {
        uint64_t x = seed * 0x2545F4914F6CDD1Dull + runno * 0x9E3779B97F4A7C15ull + (s + 1) * 0xD1342543DE82EF95ull;
        prng[s][0] = splitmix(x); prng[s][1] = splitmix(x);
    }
    clock_reset();
    alloc_arena_start();
    scenario();
    finish();
}

static void sh_reset() {
    sh->status = ST_RUNNING; sh->nontriv = 0; sh->hash = 0x1234567; sh->ihash = 0; sh->steps = 0; sh->simns = 0;
    snprintf(sh->site, sizeof sh->site, "start"); sh->vkind[0] = sh->vsite[0] = sh->vmsg[0] = 0;
    for (int s = 0; s < NSTREAM; ++s) sh->n[s] = 0;
    sh->nstates = 0; sh->ntrace = 0; sh->trc[0] = 0;
}
static RunResult exec_run(uint64_t seed, uint64_t runno) {
    sh_reset();
    pid_t p = fork();
    if (p == 0) { child_main(seed, runno); _exit(0); }
    if (p < 0) { fprintf(stderr, "fork failed: %s\n", strerror(errno)); quit(98); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    if (sh->status == ST_RUNNING) {      // died without reporting
        char k[64];
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGKILL) snprintf(k, sizeof k, "hang"); else snprintf(k, sizeof k, "crash:sig%d", WTERMSIG(st));
        } else snprintf(k, sizeof k, "crash:exit%d", WEXITSTATUS(st));
        snprintf(sh->vkind, sizeof sh->vkind, "%s", k);
        snprintf(sh->vsite, sizeof sh->vsite, "%s", sh->site);
        snprintf(sh->vmsg, sizeof sh->vmsg, "process ended unexpectedly (wait status 0x%x)", st);
        sh->hash = 0;
        std::string key = std::string(k) + "|" + sh->site; bool kn = false;
        for (auto& x : *g_known) if (x == key) kn = true;
        sh->status = kn ? ST_OK : ST_VIOLATION;
    }
    r.status = sh->status; r.kind = sh->vkind; r.where = sh->vsite; r.msg = sh->vmsg; r.hash = sh->hash;
    return r;
}

// ------------------------------------------------------------------ choices on disk
struct Choices { std::vector<uint32_t> c[NSTREAM]; };
static Choices capture() { Choices r; for (int s = 0; s < NSTREAM; ++s) r.c[s].assign(chan(sh, s), chan(sh, s) + sh->n[s]); return r; }
static RunResult replay(const Choices& c) {
    g_replay = true;
    for (int s = 0; s < NSTREAM; ++s) { rp[s] = c.c[s].data(); rp_n[s] = (uint32_t)c.c[s].size(); }
    RunResult r = exec_run(0, 0);
    g_replay = false;
    return r;
}
static void trim(Choices& c) { for (auto& v : c.c) while (!v.empty() && v.back() == 0) v.pop_back(); }
static size_t weight(const Choices& c) { size_t n = 0; for (auto& v : c.c) for (auto x : v) n += 1 + (x ? 1 : 0); return n; }

static double mono() { return (double)real_mono_ns() * 1e-9; }

static Choices minimise(Choices best, const RunResult& target, double budget, uint64_t& attempts) {
    double t0 = mono();
    auto same = [&](const RunResult& r) { return r.viol() && r.kind == target.kind && r.where == target.where; };
    auto attempt = [&](const Choices& c) -> bool {
        if (mono() - t0 > budget) return false;
        attempts++;
        RunResult r = replay(c);
        if (!same(r)) return false;
        Choices got = capture(); trim(got);
        Choices cc = c; trim(cc);
        const Choices& cand = weight(got) <= weight(cc) ? got : cc;
        if (weight(cand) < weight(best)) { best = cand; return true; }
        return false;
    };
    trim(best);
    static const int order[NSTREAM] = {F, S, W};
    for (int pass = 0; pass < 6 && mono() - t0 < budget; ++pass) {
        size_t before = weight(best);
        for (int oi = 0; oi < NSTREAM; ++oi) {
            int s = order[oi];
            { Choices c = best; c.c[s].clear(); attempt(c); }
            // zero / delete chunks
            for (size_t chunk = best.c[s].size(); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < best.c[s].size() && mono() - t0 < budget;) {
                    size_t e = std::min(best.c[s].size(), i + chunk);
                    Choices c = best; c.c[s].erase(c.c[s].begin() + i, c.c[s].begin() + e);
                    if (attempt(c)) continue;
                    bool nz = false; for (size_t j = i; j < e; ++j) if (best.c[s][j]) nz = true;
                    if (nz) { c = best; std::fill(c.c[s].begin() + i, c.c[s].begin() + e, 0u); attempt(c); }
                    i += chunk;
                }
                if (chunk == 1) break;
            }
            for (size_t i = 0; i < best.c[s].size() && mono() - t0 < budget; ++i) {
                uint32_t v = best.c[s][i];
                for (uint32_t nv : {v / 2, v - 1}) {
                    if (v < 2 || i >= best.c[s].size() || nv >= best.c[s][i]) continue;
                    Choices c = best; c.c[s][i] = nv;
                    RunResult r = (attempts++, replay(c));
                    if (same(r)) { trim(c); best = c; break; }
                }
            }
        }
        if (weight(best) >= before) break;
    }
    return best;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
static void write_replay(const std::string& path, uint64_t seed, uint64_t runno, const Choices& c, const RunResult& r, const Choices* orig, uint64_t attempts) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); quit(97); }
    fprintf(f, "{\n \"check\": %s,\n \"seed\": %llu,\n \"run\": %llu,\n \"thorough\": %d,\n \"kind\": %s,\n \"site\": %s,\n \"message\": %s,\n \"hash\": \"%016llx\",\n",
            jstr(SIM_CHECK_ID).c_str(), (unsigned long long)seed, (unsigned long long)runno, (int)g_thorough, jstr(r.kind).c_str(), jstr(r.where).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.hash);
    fprintf(f, " \"minimise_attempts\": %llu,\n", (unsigned long long)attempts);
    if (orig) fprintf(f, " \"original_choices\": [%zu, %zu, %zu],\n", orig->c[0].size(), orig->c[1].size(), orig->c[2].size());
    const char* nm[NSTREAM] = {"workload", "schedule", "faults"};
    for (int s = 0; s < NSTREAM; ++s) {
        fprintf(f, " \"%s\": [", nm[s]);
        for (size_t i = 0; i < c.c[s].size(); ++i) fprintf(f, "%s%u", i ? "," : "", c.c[s][i]);
        fprintf(f, "],\n");
    }
    fprintf(f, " \"trace\": [");
    const char* t = sh->trc; bool first = true;
    while (*t) { const char* e = strchr(t, '\n'); if (!e) e = t + strlen(t);
        fprintf(f, "%s\n  %s", first ? "" : ",", jstr(std::string(t, e)).c_str()); first = false; t = *e ? e + 1 : e; }
    fprintf(f, "\n ]\n}\n");
    fclose(f);
}
static bool read_replay(const char* path, Choices& c, std::string& kind, std::string& where, uint64_t& h) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    std::string t; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
    auto strv = [&](const char* key) { std::string kk = std::string("\"") + key + "\": \""; size_t p = t.find(kk); std::string o; if (p == std::string::npos) return o;
        p += kk.size(); while (p < t.size() && t[p] != '"') { if (t[p] == '\\') ++p; o += t[p++]; } return o; };
    kind = strv("kind"); where = strv("site"); h = strtoull(strv("hash").c_str(), 0, 16);
    if (t.find("\"thorough\": 1") != std::string::npos) g_thorough = true;
    const char* nm[NSTREAM] = {"workload", "schedule", "faults"};
    for (int s = 0; s < NSTREAM; ++s) {
        std::string kk = std::string("\"") + nm[s] + "\": ["; size_t p = t.find(kk); if (p == std::string::npos) return false;
        p += kk.size(); while (p < t.size() && t[p] != ']') { if (isdigit((unsigned char)t[p])) { c.c[s].push_back((uint32_t)strtoul(&t[p], 0, 10)); while (isdigit((unsigned char)t[p])) ++p; } else ++p; }
    }
    return true;
}

// ------------------------------------------------------------------ search
struct Agg {
    uint64_t runs, steps, simns, nontriv, viols;
    struct { char name[56]; uint64_t v; } cnt[NCNT];
    struct { char key[200]; uint64_t v; } kf[64];
    volatile uint64_t next;       // next run number to take
    volatile uint32_t stop;
    volatile uint32_t nviol;      // violations written
    double t_end; uint64_t max_runs;
};
struct VRec { uint64_t run; char kind[64], where[160]; };

static const uint32_t HS = 1u << 20;   // distinct-hash set per worker (shared memory)
struct HSet { uint64_t n; uint64_t v[HS]; };
static bool hs_add(HSet* h, uint64_t x) {
    if (!x) x = 1;
    if (h->n > HS * 3 / 4) return false;
    uint32_t i = (uint32_t)(x * 0x9E3779B97F4A7C15ull >> 44);
    for (;; i = (i + 1) & (HS - 1)) { if (h->v[i] == x) return false; if (!h->v[i]) { h->v[i] = x; h->n++; return true; } }
}

} // namespace sim
using namespace sim;

extern "C" __attribute__((weak)) void __tsan_init() {}
__attribute__((weak)) void sim_warmup() {}

int main(int argc, char** argv) {
    // no address-space randomisation: hash-map order of pointers etc. cannot differ between processes
    if (!getenv("SIM_NOASLR")) {
        int per = personality(0xffffffff);
        if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    uint64_t seed = 1, maxruns = ~0ull, only = ~0ull; double secs = 10; int workers = 8; double minsecs = 20;
    std::string out, rfile, known_file, replay_dir = "."; bool show = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 10);
        else if (a == "--secs") secs = atof(nx().c_str());
        else if (a == "--minsecs") minsecs = atof(nx().c_str());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--replay") rfile = nx();
        else if (a == "--known") known_file = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--only") only = strtoull(nx().c_str(), 0, 10);
        else if (a == "--show") show = true;
        else if (a == "--cpu") g_run_cpu = atoi(nx().c_str());
    }
    g_known = new std::vector<std::string>;
    if (!known_file.empty()) {      // lines: kind|site   (already filtered for this property)
        FILE* f = fopen(known_file.c_str(), "r"); char b[512];
        if (f) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (b[0]) g_known->push_back(b); } fclose(f); }
    }
    auto mk = [&](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(96); } return p; };
    rt_init();
    sh = (Shared*)mk(shared_size());
    sh_reset();
    alloc_arena_map();
    sim_warmup();

    if (!rfile.empty()) {
        Choices c; std::string kind, where; uint64_t h;
        if (!read_replay(rfile.c_str(), c, kind, where, h)) { fprintf(stderr, "cannot read %s\n", rfile.c_str()); return 2; }
        g_verbose = true;
        g_run_cpu = kind == "hang" ? CPU_REPLAY : CPU_OTHER;
        RunResult r = replay(c);
        printf("%s\n", sh->trc);
        printf("REPLAY status=%u kind=%s site=%s hash=%016llx\nmessage: %s\n", r.status, r.kind.c_str(), r.where.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        bool ok = r.viol() && r.kind == kind && r.where == where && (h == 0 || r.hash == h);   // hash 0: a hang or a defect that reads uncontrolled memory; kind and site must still match
        printf("%s\n", ok ? "REPRODUCED" : "NOT-REPRODUCED");
        return ok ? 1 : 0;
    }
    if (only != ~0ull) {
        g_verbose = show;
        RunResult r = exec_run(seed, only);
        if (show) printf("%s\n", sh->trc);
        printf("run %llu status=%u kind=%s site=%s hash=%016llx steps=%llu\n%s\n", (unsigned long long)only, r.status, r.kind.c_str(), r.where.c_str(), (unsigned long long)r.hash, (unsigned long long)sh->steps, r.msg.c_str());
        return r.viol();
    }

    double t0 = mono();
    Agg* ag = (Agg*)mk(sizeof(Agg) * workers);
    Agg* g = (Agg*)mk(sizeof(Agg));
    HSet** hs = new HSet*[workers * 3];
    for (int i = 0; i < workers * 3; ++i) hs[i] = (HSet*)mk(sizeof(HSet));
    const int MAXV = 64; VRec* vr = (VRec*)mk(sizeof(VRec) * MAXV);
    Shared** shs = new Shared*[workers]; for (int i = 0; i < workers; ++i) shs[i] = (Shared*)mk(shared_size());
    g->next = 0; g->t_end = t0 + secs; g->max_runs = maxruns;
    std::vector<pid_t> pids;
    double worker_stop_after_viol = 3.0;
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs); sched_setaffinity(0, sizeof cs, &cs);
            sh = shs[w]; Agg& a = ag[w];
            memset(sh->cnt, 0, sizeof sh->cnt);
            double first_viol = 0;
            while (!g->stop) {
                uint64_t r = __sync_fetch_and_add(&g->next, 1);
                if (r >= g->max_runs || mono() > g->t_end) break;
                if (first_viol > 0 && mono() - first_viol > worker_stop_after_viol) break;
                RunResult rr = exec_run(seed, r);
                a.runs++; a.steps += sh->steps; a.simns += sh->simns; a.nontriv += sh->nontriv;
                if (sh->ihash) hs_add(hs[3 * w], sh->ihash);
                if (sh->nontriv) hs_add(hs[3 * w + 2], sh->hash);
                for (uint32_t k = 0; k < sh->nstates; ++k) hs_add(hs[3 * w + 1], sh->states[k]);
                if (rr.viol()) {
                    a.viols++;
                    if (first_viol == 0) first_viol = mono();
                    bool dup = false; uint32_t nv = g->nviol; for (uint32_t k = 0; k < nv && k < MAXV; ++k) if (rr.kind == vr[k].kind && rr.where == vr[k].where) dup = true;
                    if (!dup) { uint32_t k = __sync_fetch_and_add(&g->nviol, 1); if (k < MAXV) { snprintf(vr[k].kind, 64, "%s", rr.kind.c_str()); snprintf(vr[k].where, 160, "%s", rr.where.c_str()); vr[k].run = r; } }
                    if (g->nviol >= 6) g->stop = 1;
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad_worker = 0;
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad_worker++; }
    double t_search = mono() - t0;

    // aggregate
    std::map<std::string, uint64_t> cnt, kf; uint64_t runs = 0, steps = 0, simns = 0, nontriv = 0, viols = 0;
    std::set<uint64_t> inter, st, dn;
    for (int w = 0; w < workers; ++w) {
        runs += ag[w].runs; steps += ag[w].steps; simns += ag[w].simns; nontriv += ag[w].nontriv; viols += ag[w].viols;
        for (auto& c : shs[w]->cnt) if (c.name[0]) cnt[c.name] += c.v;
        for (auto& c : shs[w]->kf) if (c.key[0]) kf[c.key] += c.v;
        for (uint32_t i = 0; i < HS; ++i) { if (hs[3 * w]->v[i]) inter.insert(hs[3 * w]->v[i]); if (hs[3 * w + 1]->v[i]) st.insert(hs[3 * w + 1]->v[i]); if (hs[3 * w + 2]->v[i]) dn.insert(hs[3 * w + 2]->v[i]); }
    }
    // determinism probe: the first runs of the search executed twice must have identical event hashes
    uint64_t probe = 0, probe_bad = 0; std::string samples; int nsamp = 0;
    for (uint64_t r = 0; r < 12 && r < runs; ++r) {
        RunResult a = exec_run(seed, r); RunResult b = exec_run(seed, r); probe++;
        if (nsamp < 3 && sh->nontriv) {
            static const char* nm[NSTREAM] = {"w", "s", "f"}; char hb[200];
            samples += nsamp++ ? ",\n  {" : "\n  {";
            samples += "\"run\": " + std::to_string(r);
            for (int s = 0; s < NSTREAM; ++s) { samples += std::string(", \"") + nm[s] + "\": ["; for (uint32_t i = 0; i < sh->n[s] && i < 80; ++i) samples += (i ? "," : "") + std::to_string(chan(sh, s)[i]); samples += "]"; }
            snprintf(hb, sizeof hb, ", \"steps\": %llu, \"hash\": \"%016llx\", \"site\": ", (unsigned long long)sh->steps, (unsigned long long)b.hash);
            samples += hb + jstr(sh->site) + "}";
        }
        if (a.hash != b.hash || a.status != b.status) probe_bad++;
    }
    // violations
    std::string vj; int nondet = 0, slow = 0; uint32_t nv = g->nviol, reported = 0; if (nv > (uint32_t)MAXV) nv = MAXV;
    std::set<std::string> seen;
    std::vector<VRec> vs(vr, vr + nv); std::sort(vs.begin(), vs.end(), [](const VRec& a, const VRec& b) { bool ha = !strcmp(a.kind, "hang"), hb = !strcmp(b.kind, "hang"); return ha != hb ? hb : a.run < b.run; });
    for (auto& v : vs) {
        if (reported >= 3) break;
        std::string key = std::string(v.kind) + "|" + v.where;
        if (!seen.insert(key).second) continue;
        if (reported && !strcmp(v.kind, "hang")) continue;      // every confirmation of a hang costs its full CPU budget
        bool hang = !strcmp(v.kind, "hang");
        g_run_cpu = hang ? CPU_CONFIRM : CPU_OTHER;
        RunResult a = exec_run(seed, v.run); Choices orig = capture();
        RunResult b = exec_run(seed, v.run);
        bool det = a.viol() && a == b && a.kind == v.kind && a.where == v.where;
        RunResult c = replay(orig);
        // a defect may read memory the simulator does not control (e.g. uninitialised stack): same violation, different details
        bool weak = a.viol() && b.viol() && c.viol() && a.kind == v.kind && a.where == v.where && b.kind == a.kind && b.where == a.where && c.kind == a.kind && c.where == a.where;
        if (weak && !(det && c == a)) {
            char path[600]; snprintf(path, sizeof path, "%s/%s-%d.json", replay_dir.c_str(), SIM_CHECK_ID, (int)reported + 1);
            g_verbose = true; c = replay(orig); g_verbose = false; c.hash = 0;
            write_replay(path, seed, v.run, orig, c, &orig, 0);
            if (reported) vj += ",";
            vj += "\n  {\"kind\": " + jstr(c.kind) + ", \"site\": " + jstr(c.where) + ", \"message\": " + jstr(c.msg) + ", \"replay\": " + jstr(path) + ", \"run\": " + std::to_string(v.run) + ", \"choices_before\": 0, \"choices_after\": 0}";
            reported++; continue;
        }
        if (hang && !det) { slow++; continue; }     // slow on a loaded host, but it ends
        if (!det || !(c == a)) {
            fprintf(stderr, "NONDETERMINISTIC violation: run %llu %s at %s; first (%u %s %s %016llx) second (%u %s %s %016llx) replay (%u %s %s %016llx)\n", (unsigned long long)v.run, v.kind, v.where,
                    a.status, a.kind.c_str(), a.where.c_str(), (unsigned long long)a.hash, b.status, b.kind.c_str(), b.where.c_str(), (unsigned long long)b.hash, c.status, c.kind.c_str(), c.where.c_str(), (unsigned long long)c.hash);
            nondet++; continue;
        }
        uint64_t att = 0; Choices m = minimise(orig, a, minsecs / (reported + 1), att);
        g_verbose = true;
        if (hang) g_run_cpu = CPU_MINIMAL;
        RunResult fin = replay(m);
        RunResult fin2 = replay(m);
        if (hang && !(fin == fin2 && fin.viol())) { g_verbose = false; slow++; continue; }
        if (!(fin == fin2) || !fin.viol()) { nondet++; g_verbose = false; continue; }
        char path[600]; snprintf(path, sizeof path, "%s/%s-%d.json", replay_dir.c_str(), SIM_CHECK_ID, (int)reported + 1);
        write_replay(path, seed, v.run, m, fin, &orig, att);
        g_verbose = false;
        if (reported) vj += ",";
        vj += "\n  {\"kind\": " + jstr(fin.kind) + ", \"site\": " + jstr(fin.where) + ", \"message\": " + jstr(fin.msg) + ", \"replay\": " + jstr(path) + ", \"run\": " + std::to_string(v.run) + ", \"choices_before\": " + std::to_string(weight(orig)) + ", \"choices_after\": " + std::to_string(weight(m)) + "}";
        reported++;
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\n \"check\": \"%s\", \"seed\": %llu, \"runs\": %llu, \"search_s\": %.3f, \"steps\": %llu, \"sim_ns\": %llu, \"nontrivial\": %llu, \"violating_runs\": %llu,\n", SIM_CHECK_ID, (unsigned long long)seed,
            (unsigned long long)runs, t_search, (unsigned long long)steps, (unsigned long long)simns, (unsigned long long)nontriv, (unsigned long long)viols);
    fprintf(f, " \"distinct_interleavings\": %zu, \"distinct_states\": %zu, \"distinct_nontrivial\": %zu, \"samples\": [%s], \"determinism_probe\": [%llu, %llu], \"nondeterministic\": %d, \"unconfirmed_slow\": %d, \"bad_workers\": %d,\n", inter.size(), st.size(), dn.size(), samples.c_str(), (unsigned long long)probe, (unsigned long long)probe_bad, nondet, slow, bad_worker);
    fprintf(f, " \"counters\": {"); bool first = true;
    for (auto& c : cnt) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n \"known\": {"); first = true;
    for (auto& c : kf) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n \"violations\": [%s]\n}\n", vj.c_str());
    if (f != stdout) fclose(f);
    if (!reported && (nondet || probe_bad || bad_worker)) return 2;
    return reported ? 1 : 0;
}
