/* The simulator: tape, virtual clock, fibers, links, faults, trace, supervisor, minimiser. */
#pragma once
#include "core.h"
#include <dlfcn.h>
#include <deque>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unwind.h>
extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
void __sanitizer_start_switch_fiber(void**, const void*, size_t);
void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
const char* __asan_get_report_description();
int __asan_get_report_access_type();
size_t __asan_get_report_access_size();
int __asan_report_present();
void* __asan_get_report_address();
}

// ------------------------------------------------------------------ memory shared between a run and its supervisor
enum { MAXTAPE = 1 << 19, MAXCOV = 1 << 19, MAXST = 512 };
struct Shm {
    uint32_t ntape; uint32_t tape[MAXTAPE];
    int violated; char sig[240]; char text[3000];
    uint64_t hash; uint64_t evs;
    uint64_t steps, simus, msgs; int nontriv;
    int nst; struct { char name[44]; uint64_t n; } st[MAXST];
    uint8_t cov[MAXCOV];
};
static Shm* shm;                 // of this worker
static bool verbose = false; static string g_site;      // g_site: the call site of a listed finding is being exercised
static uint64_t rng_s;
static const vector<uint32_t>* replay_tape = nullptr;
static size_t replay_pos;
static uint64_t g_steps, g_step_limit; static bool g_count;
static const char* g_phase = "";
static string g_prop;
static uint32_t ncov = 0;

static void stat_add(const char* name, uint64_t k = 1) {
    static std::map<string, int> idx; static Shm* owner = nullptr;
    if (owner != shm) { idx.clear(); owner = shm; for (int i = 0; i < shm->nst; i++) idx[shm->st[i].name] = i; }
    auto it = idx.find(name); int i;
    if (it == idx.end()) {
        for (i = 0; i < shm->nst; i++) if (!strcmp(shm->st[i].name, name)) break;
        if (i == shm->nst) { if (shm->nst >= MAXST) return; shm->nst++; snprintf(shm->st[i].name, 44, "%s", name); shm->st[i].n = 0; }
        idx[name] = i;
    } else i = it->second;
    shm->st[i].n += k;
}
#define STAT(...) stat_add(__VA_ARGS__)
#define NONTRIV(name) do { shm->nontriv = 1; stat_add(name); } while (0)

uint32_t draw(uint32_t n) {
    if (n <= 1) n = 1;
    uint32_t v;
    if (replay_tape) { v = replay_pos < replay_tape->size() ? (*replay_tape)[replay_pos] % n : 0; replay_pos++; }
    else v = (uint32_t)(splitmix(rng_s) >> 11) % n;
    if (shm->ntape < MAXTAPE) shm->tape[shm->ntape++] = v;
    return v;
}
static void hash_bytes(const void* p, size_t n) {
    uint64_t h = shm->hash; const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    shm->hash = h; 
}
static uint64_t sim_now();
// a trace event
__attribute__((format(printf, 1, 2))) static void ev(const char* f, ...) {
    char b[1500]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    hash_bytes(b, (size_t)n); shm->evs++;
    if (verbose) printf("  [%8llu us] %s\n", (unsigned long long)sim_now(), b);
}
__attribute__((noreturn, format(printf, 2, 3))) static void violation(const string& sig, const char* f, ...) {
    va_list a; va_start(a, f); vsnprintf(shm->text, sizeof shm->text, f, a); va_end(a);
    snprintf(shm->sig, sizeof shm->sig, "%s", g_site.empty() ? sig.c_str() : g_site.c_str());
    hash_bytes(shm->sig, strlen(shm->sig));
    shm->violated = 1; shm->steps += g_steps;
    if (verbose) { printf("  VIOLATED %s: %s\n", shm->sig, shm->text); fflush(stdout); }
    _exit(77);
}

static vector<string> g_known;
static bool is_known(const string& s) {
    for (auto& k : g_known) if (!k.empty() && (k.back() == '*' ? s.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0 : s == k)) return true;
    return false;
}
// a violation that may be a listed finding: a listed one is counted and the run goes on
#define FOUND(sig, ...) do { string s_ = (sig); if (is_known(s_)) { stat_add(("known:" + s_).substr(0, 43).c_str()); ev("known finding %s", s_.c_str()); } else violation(s_, __VA_ARGS__); } while (0)

// ------------------------------------------------------------------ attribution of crashes inside a node
static vector<std::pair<string, void*>> so_bases;    // node name, handle base
struct UW { string top; };
static _Unwind_Reason_Code uw_cb(struct _Unwind_Context* c, void* a) {
    UW* u = (UW*)a; void* pc = (void*)_Unwind_GetIP(c); Dl_info di;
    if (dladdr((char*)pc - 1, &di) && di.dli_fname && strstr(di.dli_fname, "/node_")) {
        u->top = di.dli_sname ? di.dli_sname : "?"; return _URC_END_OF_STACK;
    }
    return _URC_NO_REASON;
}
extern "C" void __asan_on_error() {
    if (verbose) return;     // the replay prints the sanitizer's own report as well
    UW u; _Unwind_Backtrace(uw_cb, &u);
    const char* d = __asan_get_report_description(); if (!d || !*d) d = "crash";
    if (u.top.empty()) u.top = "sim";
    violation("memory:" + string(d) + ":" + u.top, "%s %s of %zu byte(s) in %s during %s", d, __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size(), u.top.c_str(), g_phase);
}
static void on_sig(int s) {
    UW u; _Unwind_Backtrace(uw_cb, &u);
    const char* n = s == SIGABRT ? "abort" : s == SIGILL ? "index-out-of-array" : s == SIGFPE ? "fpe" : "segv";
    violation(string("crash:") + n + ":" + u.top, "%s in %s during %s", n, u.top.c_str(), g_phase);
}
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:detect_odr_violation=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:"
           "detect_stack_use_after_return=0:symbolize=0:allocator_may_return_null=1:quarantine_size_mb=1:malloc_context_size=0:"
           "max_malloc_fill_size=0:check_malloc_usable_size=0:exitcode=76:fast_unwind_on_malloc=1:poison_heap=1:print_legend=0";
}

// ------------------------------------------------------------------ execution events: steps, coverage, pre-emption
static void (*preempt_hook)() = nullptr; static int64_t preempt_left = 0;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) if (!*a) *a = ++ncov; }
__attribute__((noinline)) static void step_over() {
    g_count = false;
    violation(string("unbounded:") + g_phase, "more than %llu steps in %s: the call does not end within a bound proportional to the input", (unsigned long long)g_step_limit, g_phase);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (shm && *g < MAXCOV) shm->cov[*g] = 1;
    if (!g_count) return;
    if (++g_steps > g_step_limit) step_over();
    if (preempt_hook && --preempt_left <= 0) preempt_hook();
}

// ------------------------------------------------------------------ fibers, clock, timers
struct Fiber { ucontext_t ctx; char* stk; size_t ssz; std::function<void()> fn; bool done = false, blocked = false; int id; string name; void* fake = nullptr;
    uint64_t steps = 0, limit = 0; bool count = false; const char* phase = ""; };
struct Sim {
    vector<Fiber*> fs; Fiber* cur = nullptr; ucontext_t main_ctx; void* main_fake = nullptr; const void* main_stk = nullptr; size_t main_ssz = 0;
    std::map<std::pair<uint64_t, uint64_t>, std::function<void()>> tm; uint64_t now = 0, seq = 0; uint64_t switches = 0;
    uint32_t quantum = 0;      // 0: fibers run until they block
    void at(uint64_t t, std::function<void()> f) { tm.emplace(std::make_pair(t, seq++), std::move(f)); }
    Fiber* spawn(const string& n, std::function<void()> f);
    void block() { cur->blocked = true; yield(); }
    void wake(Fiber* f) { f->blocked = false; }
    void sleep(uint64_t us) { Fiber* f = cur; at(now + us, [this, f] { wake(f); }); block(); }
    void yield();
    bool run(uint64_t max_events = 2000000);
    ~Sim() { for (auto f : fs) { munmap(f->stk, f->ssz); delete f; } }
};
static Sim* sim = nullptr;
static uint64_t sim_now() { return sim ? sim->now : 0; }
static void fiber_main(unsigned lo, unsigned hi) {
    Fiber* f = (Fiber*)((uintptr_t)lo | (uintptr_t)hi << 32);
    __sanitizer_finish_switch_fiber(nullptr, &sim->main_stk, &sim->main_ssz);
    f->fn();
    f->done = true;
    __sanitizer_start_switch_fiber(nullptr, sim->main_stk, sim->main_ssz);
    swapcontext(&f->ctx, &sim->main_ctx);
    abort();
}
Fiber* Sim::spawn(const string& n, std::function<void()> f) {
    Fiber* x = new Fiber; x->id = (int)fs.size(); x->name = n; x->fn = f; x->ssz = 1 << 20;
    x->stk = (char*)mmap(nullptr, x->ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&x->ctx); x->ctx.uc_stack.ss_sp = x->stk; x->ctx.uc_stack.ss_size = x->ssz; x->ctx.uc_link = nullptr;
    makecontext(&x->ctx, (void (*)())fiber_main, 2, (unsigned)((uintptr_t)x & 0xFFFFFFFFu), (unsigned)((uintptr_t)x >> 32));
    fs.push_back(x); return x;
}
void Sim::yield() {
    Fiber* f = cur;
    f->steps = g_steps; f->limit = g_step_limit; f->count = g_count; f->phase = g_phase; g_count = false;
    __sanitizer_start_switch_fiber(&f->fake, main_stk, main_ssz);
    swapcontext(&f->ctx, &main_ctx);
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
    // g_steps is cumulative over the run; the limit moves with what the others did meanwhile
    g_step_limit = f->limit == 0 ? 0 : f->limit + (g_steps - f->steps); g_count = f->count; g_phase = f->phase;
}
static void preempt_now() { if (sim && sim->cur) { STAT("sched.preempt"); sim->yield(); } }
bool Sim::run(uint64_t maxev) {
    while (maxev--) {
        vector<Fiber*> r; bool alive = false;
        for (auto f : fs) if (!f->done) { alive = true; if (!f->blocked) r.push_back(f); }
        if (!alive) return true;
        if (r.empty()) {
            if (tm.empty()) return false;
            auto b = tm.begin(); auto f = std::move(b->second); if (b->first.first > now) now = b->first.first; tm.erase(b); f(); continue;
        }
        Fiber* f = r[draw((uint32_t)r.size())];
        cur = f; switches++;
        if (quantum) { preempt_hook = preempt_now; preempt_left = 1 + draw(quantum); if (r.size() > 1) { hash_bytes(&f->id, 4); hash_bytes(&g_steps, 8); } }
        __sanitizer_start_switch_fiber(&main_fake, f->stk, f->ssz);
        swapcontext(&main_ctx, &f->ctx);
        __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
        cur = nullptr; preempt_hook = nullptr; g_count = false;
    }
    return false;
}
// a one-way reliable byte link with delay, segmentation, stalls; a crash loses what was not delivered yet
struct Link {
    std::deque<uint8_t> avail; bool eof = false, broken = false; uint64_t last = 0; vector<Fiber*> wait; uint64_t sent = 0, delivered = 0; uint64_t cut = ~0ULL;
    void wakeall() { for (auto f : wait) sim->wake(f); wait.clear(); }
    void seg(const Bytes& b) {
        uint64_t d = draw(4) ? draw(200) : draw(20) == 19 ? (STAT("fault.stall"), 100000 + draw(5000000)) : 1000 + draw(20000);
        last = std::max(last, sim->now + d);
        sim->at(last, [this, b] { for (uint8_t x : b) if (delivered < cut) { avail.push_back(x); delivered++; } wakeall(); });
    }
    void send(const uint8_t* p, size_t n) {
        sent += n;
        while (n) { size_t k = draw(3) == 0 ? n : 1 + draw((uint32_t)n); seg(Bytes(p, p + k)); p += k; n -= k; }
    }
    void close() { last = std::max(last, sim->now + 1); sim->at(last, [this] { eof = true; wakeall(); }); }
    // receive between 1 and max bytes; 0 at end of stream
    size_t recv(uint8_t* o, size_t max) {
        while (avail.empty() && !eof) { wait.push_back(sim->cur); sim->block(); }
        size_t k = std::min(avail.size(), max);
        if (k > 1 && draw(2)) { k = 1 + draw((uint32_t)k); STAT("fault.short-read"); }
        for (size_t i = 0; i < k; i++) { o[i] = avail.front(); avail.pop_front(); }
        return k;
    }
};

// ------------------------------------------------------------------ nodes
struct Node { string name, model; const NodeApi* api; Model* m; vector<int> map; /* model pdu -> node pdu */ void* h; };
static std::map<string, Node*> nodes;
static std::map<string, Model*> models;
static Node* load_node(const string& name, const string& model, const string& path) {
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    auto f = (const NodeApi* (*)(void))dlsym(h, "vf_node");
    Node* n = new Node; n->h = h; n->name = name; n->model = model; n->api = f(); n->m = models.at(model);
    for (auto& p : n->m->pdus) { int k = -1; for (int i = 0; i < n->api->npdus; i++) if (p == n->api->pdus[i].name) k = i; n->map.push_back(k); }
    nodes[name] = n; return n;
}
struct Guard {           // run node code: count steps, bound them
    Guard(const char* ph, uint64_t limit) { g_phase = ph; g_step_limit = g_steps + limit; g_count = true; }
    ~Guard() { g_count = false; }
};

// ------------------------------------------------------------------ supervisor
typedef void (*Scenario)();
struct Finding { string sig, text; uint64_t seed; uint64_t hash; vector<uint32_t> tape; };
static Shm* new_shm() { return (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static void child_run(Scenario sc) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE }) sigaction(s, &sa, nullptr);
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
    g_steps = 0;
    sc();
    shm->steps += g_steps;
    if (sim) shm->simus += sim->now;
    if (verbose) fflush(stdout);
    _exit(0);
}
// one run in a child process; returns 0 ok, 1 violation (in shm)
static int run_one(Scenario sc, uint64_t seed, const vector<uint32_t>* tape, double wall = 60) {
    shm->ntape = 0; shm->violated = 0; shm->nontriv = 0; shm->hash = 1469598103934665603ULL; shm->evs = 0; shm->sig[0] = shm->text[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { rng_s = seed * 0x9E3779B97F4A7C15ULL + 12345; replay_tape = tape; replay_pos = 0; alarm((unsigned)wall); child_run(sc); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->violated) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(shm->sig, sizeof shm->sig, "hang"); snprintf(shm->text, sizeof shm->text, "run did not finish within %g s of real time", wall); }
    else { snprintf(shm->sig, sizeof shm->sig, "died:%d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); snprintf(shm->text, sizeof shm->text, "the process running the node died (status %x)", st); }
    shm->violated = 1; return 1;
}
static double wnow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static vector<uint32_t> minimise(Scenario sc, vector<uint32_t> tape, const string& sig, double budget, int* tries) {
    double end = wnow() + budget;
    auto fails = [&](const vector<uint32_t>& t) { if (wnow() > end) return false; ++*tries; return run_one(sc, 0, &t, 20) == 1 && sig == shm->sig; };
    auto trim = [&](vector<uint32_t>& t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
    trim(tape);
    bool progress = true;
    while (progress && wnow() < end) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, tape.size() / 2); blk >= 1 && wnow() < end; blk /= 2) {
            for (size_t i = 0; i < tape.size() && wnow() < end;) {
                vector<uint32_t> t(tape); size_t k = std::min(blk, t.size() - i); t.erase(t.begin() + (long)i, t.begin() + (long)(i + k));
                if (fails(t)) { tape = t; progress = true; continue; }
                bool nz = false; for (size_t j = i; j < i + k; j++) nz |= tape[j] != 0;
                if (nz) { t = tape; for (size_t j = i; j < i + k; j++) t[j] = 0; if (fails(t)) { tape = t; progress = true; } }
                i += k;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < tape.size() && wnow() < end; i++) {
            uint32_t lo = 0, hi = tape[i];
            while (lo + 1 < hi && wnow() < end) { uint32_t mid = lo + (hi - lo) / 2; vector<uint32_t> t(tape); t[i] = mid; if (fails(t)) hi = mid; else lo = mid; }
            if (hi < tape[i]) { tape[i] = hi; progress = true; }
        }
        trim(tape);
    }
    return tape;
}
