#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <new>
#include <set>
#include <algorithm>

#define REAL(name) (__extension__({ static decltype(&::name) f_ = (decltype(&::name))dlsym(RTLD_NEXT, #name); f_; }))

// ------------------------------------------------------------------ context switch
extern "C" void vs_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vs_switch,.-vs_switch
)");

namespace vs
{
static const size_t STACK = 512 * 1024;
enum State { RUNNABLE, SLEEPING, BLOCKED_MUTEX, BLOCKED_JOIN, BLOCKED_COND, FINISHED };
struct Fiber
{
    int id = 0;
    State st = RUNNABLE;
    bool driver = false;
    void* sp = nullptr;
    char* stack = nullptr;
    void (*fn)(void*) = nullptr;
    void* (*pfn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    long long wake = 0;
    void* wait_on = nullptr;
    int wait_join = -1;
    int err = 0;
    int prio = 0;
    bool timed = false;
    bool stalled = false;
    long stall_until_step = 0;
    long long stall_until_us = 0;
    uintptr_t last_line = 0;
    std::string tls;       // its thread local variables while it is not running
};
struct Mtx { int owner = -1; int count = 0; };

static Opts g_o;
static std::vector<Fiber*> g_f;
static std::vector<char*> g_pool;
static int g_cur = -1;
static void* g_main_sp = nullptr;
static long g_step = 0;
static long long g_now = 1700000000LL * 1000000;
static bool g_enabled = false;
static int g_fair = 0;
static bool g_crash = false;
static std::map<void*, Mtx> g_mtx;
static std::vector<std::pair<uintptr_t, uintptr_t>> g_ranges;
static std::vector<long> g_points; // PCT change points or stall points
static int g_low_prio = 0;
static uint64_t g_rng = 88172645463325252ULL;
static size_t g_new_min = (size_t)-1;
static long g_io = 0;

uint64_t rnd()
{
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1DULL >> 11;
}
static inline bool chance(int per_mille) { return per_mille > 0 && (int)(rnd() % 1000) < per_mille; }

long real_ms()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
long steps() { return g_step; }
long io_count() { return g_io; }
int self() { return g_cur; }
static std::vector<long long> g_hist; // all values of the clock
static void set_clock(long long t)
{
    if (t == g_now) return;
    g_now = t;
    g_hist.push_back(t);
}
long long now_us() { return g_now; }
size_t clock_mark() { return g_hist.size(); }
std::vector<long long> clock_since(size_t mark) { return std::vector<long long>(g_hist.begin() + (long)mark, g_hist.end()); }
void set_now_us(long long t)
{
    // sleeping is not affected by setting the clock back
    if (t < g_now) for (auto* f : g_f) { f->wake += t - g_now; if (f->stalled) f->stall_until_us += t - g_now; }
    set_clock(t);
}
void advance_us(long long d) { set_clock(g_now + d); }
void fair(bool on) { g_fair += on ? 1 : -1; }
void set_enabled(bool on) { g_enabled = on; }

void configure(const Opts& o)
{
    g_o = o;
    g_rng = o.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    if (g_rng == 0) g_rng = 1;
    for (int i = 0; i < 5; i++) rnd();
    g_step = 0;
    g_crash = false;
    g_points.clear();
    g_low_prio = 0;
    long est = o.est > 10 ? o.est : 10;
    if (o.strat == PCT)
        for (int i = 0; i < o.pct_depth; i++) g_points.push_back((long)(rnd() % est));
    if (o.strat == STALL)
        for (int i = 0; i < o.stalls; i++) g_points.push_back((long)(rnd() % est));
    std::sort(g_points.begin(), g_points.end());
}

// Thread local variables of the executable: every fiber has its own.
static char* g_tls = nullptr;
static std::string g_tls_first, g_tls_main;
// Static variables of the library are shared by all threads, too.
static std::vector<std::pair<uintptr_t, uintptr_t>> g_statics;
static int own_phdr(struct dl_phdr_info* i, size_t, void* base)
{
    *(uintptr_t*)base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            g_tls = (char*)i->dlpi_tls_data;
            g_tls_first.assign((const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz);
            g_tls_first.resize(i->dlpi_phdr[k].p_memsz);
        }
    return 1; // the executable comes first
}
void prepare()
{
    uintptr_t base = 0;
    dl_iterate_phdr(own_phdr, &base);
    g_tls_main = g_tls_first;
    int fd = (int)syscall(SYS_open, "/proc/self/exe", O_RDONLY);
    if (fd < 0) return;
    struct stat st;
    fstat(fd, &st);
    char* m = (char*)mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    Elf64_Ehdr* eh = (Elf64_Ehdr*)m;
    Elf64_Shdr* sh = (Elf64_Shdr*)(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++)
    {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        Elf64_Sym* sym = (Elf64_Sym*)(m + sh[i].sh_offset);
        const char* str = m + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++)
        {
            if (ELF64_ST_TYPE(sym[k].st_info) != STT_OBJECT || sym[k].st_size == 0 || sym[k].st_shndx == 0 || sym[k].st_shndx >= eh->e_shnum) continue;
            if (!(sh[sym[k].st_shndx].sh_flags & SHF_WRITE)) continue;
            const char* n = str + sym[k].st_name;
            if (strncmp(n, "_Z", 2) != 0) continue;
            n += 2;
            while (*n == 'Z' || *n == 'N' || *n == 'K') n++;
            if (strncmp(n, "5FNLog", 6) != 0 && strncmp(n, "11FileHandler", 13) != 0 && strncmp(n, "10UDPHandler", 12) != 0) continue;
            if (strncmp(n, "5FNLogL", 7) == 0) continue; // namespace constants
            uintptr_t a = base + sym[k].st_value;
            if (sym[k].st_size == 8 && sh[sym[k].st_shndx].sh_type != SHT_NOBITS) continue; // pointers to tables
            g_statics.push_back({a, a + sym[k].st_size});
        }
    }
    munmap(m, (size_t)st.st_size);
    g_ranges = g_statics;
}
static void entry();
static Fiber* make(bool driver)
{
    Fiber* f = new Fiber;
    f->tls = g_tls_first;
    f->id = (int)g_f.size();
    f->driver = driver;
    if (!g_pool.empty()) { f->stack = g_pool.back(); g_pool.pop_back(); }
    else
    {
        f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK | MAP_NORESERVE, -1, 0);
        mprotect(f->stack, 4096, PROT_NONE);
    }
    void** sp = (void**)(f->stack + STACK - 64);
    sp = (void**)((uintptr_t)sp & ~(uintptr_t)15);
    *--sp = nullptr;             // alignment and fake return address of entry
    *--sp = (void*)entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    f->prio = 1000 + (int)(rnd() % 1000000);
    g_f.push_back(f);
    return f;
}
int spawn(void (*fn)(void*), void* arg, bool driver)
{
    Fiber* f = make(driver);
    f->fn = fn;
    f->arg = arg;
    return f->id;
}
static void to_main()
{
    Fiber* f = g_f[g_cur];
    f->err = errno;
    if (!f->tls.empty())
    {
        memcpy(&f->tls[0], g_tls, f->tls.size());
        memcpy(g_tls, g_tls_main.data(), g_tls_main.size());
    }
    vs_switch(&f->sp, g_main_sp);
    errno = g_f[g_cur]->err;
}
static void entry()
{
    Fiber* f = g_f[g_cur];
    if (f->fn) f->fn(f->arg);
    else f->ret = f->pfn(f->arg);
    f = g_f[g_cur];
    f->st = FINISHED;
    for (auto* x : g_f)
        if (x->st == BLOCKED_JOIN && x->wait_join == f->id) x->st = RUNNABLE;
    to_main();
    abort();
}
static void wake_sleepers()
{
    for (auto* f : g_f)
        if ((f->st == SLEEPING || (f->st == BLOCKED_COND && f->timed)) && f->wake <= g_now)
        {
            if (f->st == BLOCKED_COND) f->wait_on = nullptr;
            f->st = RUNNABLE;
        }
}
static std::vector<int> g_run;
static void collect()
{
    g_run.clear();
    for (auto* f : g_f)
    {
        if (f->stalled && (g_fair > 0 || g_step >= f->stall_until_step || g_now >= f->stall_until_us)) f->stalled = false;
        if (f->st == RUNNABLE && !f->stalled) g_run.push_back(f->id);
    }
}
int runnable_others()
{
    wake_sleepers();
    int n = 0;
    for (auto* f : g_f)
        if (f->st == RUNNABLE && f->id != g_cur) n++;
    return n;
}
void crash_now()
{
    g_crash = true;
    to_main();
    abort();
}
void yield()
{
    if (g_cur < 0 || !g_enabled) return;
    g_step++;
    if (g_o.crash_step >= 0 && g_step >= g_o.crash_step) crash_now();
    if (g_step > g_o.lim_fair)
    {
        if (g_step > g_o.lim_stuck || (g_step & 7) == 0) to_main();
        return;
    }
    Fiber* f = g_f[g_cur];
    switch (g_o.strat)
    {
    case RW:
        if (chance(g_o.p_switch)) to_main();
        break;
    case PCT:
        while (!g_points.empty() && g_points.front() <= g_step)
        {
            g_points.erase(g_points.begin());
            f->prio = --g_low_prio;
        }
        to_main();
        break;
    case STALL:
        if (!g_points.empty() && g_points.front() <= g_step)
        {
            g_points.erase(g_points.begin());
            if (g_fair == 0)
            {
                f->stalled = true;
                f->stall_until_step = g_step + g_o.stall_steps / 2 + (long)(rnd() % (g_o.stall_steps + 1));
                f->stall_until_us = g_now + (long long)(rnd() % (g_o.stall_us + 1));
                to_main();
                break;
            }
        }
        if (chance(g_o.p_switch)) to_main();
        break;
    case PB:
        if (!g_o.pre.empty() && g_o.pre.front().step <= g_step) to_main();
        break;
    }
}
void sleep_us(long us)
{
    if (g_cur < 0) { set_clock(g_now + us); return; }
    Fiber* f = g_f[g_cur];
    g_step++;
    if (g_o.crash_step >= 0 && g_step >= g_o.crash_step && g_enabled) crash_now();
    f->st = SLEEPING;
    f->wake = g_now + (us > 0 ? us : 0);
    to_main();
}
static int pick()
{
    wake_sleepers();
    collect();
    if (g_o.p_early > 0 && g_fair == 0 && chance(g_o.p_early))
    {
        long long best = -1;
        for (auto* f : g_f)
            if (f->st == SLEEPING && f->wake - g_now <= 100000 && (best < 0 || f->wake < best)) best = f->wake;
        if (best >= 0) { set_clock(std::max(g_now, best)); wake_sleepers(); collect(); }
    }
    while (g_run.empty())
    {
        long long best = -1;
        bool any = false;
        for (auto* f : g_f)
        {
            if (f->st == SLEEPING || (f->st == BLOCKED_COND && f->timed))
                if (best < 0 || f->wake < best) best = f->wake;
            if (f->st == RUNNABLE && f->stalled)
            {
                any = true;
                if (best < 0 || f->stall_until_us < best) best = f->stall_until_us;
            }
        }
        if (best < 0 && !any) return -1;
        set_clock(std::max(g_now, best));
        wake_sleepers();
        collect();
    }
    if (g_step > g_o.lim_fair) return g_run[rnd() % g_run.size()];
    switch (g_o.strat)
    {
    case PCT:
    {
        int b = g_run[0];
        for (int i : g_run) if (g_f[i]->prio > g_f[b]->prio) b = i;
        return b;
    }
    case PB:
    {
        int want = -1;
        if (!g_o.pre.empty() && g_o.pre.front().step <= g_step) { want = g_o.pre.front().target; g_o.pre.erase(g_o.pre.begin()); }
        if (want >= 0) for (int i : g_run) if (i == want) return i;
        if (want >= 0) { return g_run[want % g_run.size()]; }
        for (int i : g_run) if (i == g_cur) return i;
        // round robin after the current
        for (int i : g_run) if (i > g_cur) return i;
        return g_run[0];
    }
    default:
        return g_run[rnd() % g_run.size()];
    }
}
Why run()
{
    g_cur = -1;
    int last = -1;
    for (;;)
    {
        bool open = false;
        for (auto* f : g_f) if (f->driver && f->st != FINISHED) open = true;
        if (!open) { g_cur = -1; return DONE; }
        if (g_step > g_o.lim_stuck) { g_cur = -1; return STUCK; }
        g_cur = last;
        int n = pick();
        if (n < 0) { g_cur = -1; return DEADLOCK; }
        g_cur = n;
        last = n;
        g_f[n]->last_line = 0;
        g_step++;
        if (!g_tls_main.empty())
        {
            memcpy(&g_tls_main[0], g_tls, g_tls_main.size());
            memcpy(g_tls, g_f[n]->tls.data(), g_f[n]->tls.size());
        }
        vs_switch(&g_main_sp, g_f[n]->sp);
        if (g_crash) { g_cur = -1; return CRASHED; }
    }
}
void abandon_all()
{
    for (auto* f : g_f) delete f; // stacks are leaked on purpose: nothing of a crashed process is touched again
    g_f.clear();
    g_mtx.clear();
    g_cur = -1;
    g_crash = false;
}
std::string describe()
{
    std::string s;
    static const char* names[] = {"run", "sleep", "mutex", "join", "cond", "done"};
    for (auto* f : g_f)
    {
        s += (f->driver ? "d" : "t") + std::to_string(f->id) + ":" + names[f->st];
        if (f->st == BLOCKED_MUTEX) s += "(owner " + std::to_string(g_mtx[f->wait_on].owner) + ")";
        if (f->st == BLOCKED_JOIN) s += "(" + std::to_string(f->wait_join) + ")";
        s += " ";
    }
    return s;
}
void add_range(void* p, size_t n) { g_ranges.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void del_range(void* p)
{
    for (size_t i = 0; i < g_ranges.size(); i++)
        if (g_ranges[i].first == (uintptr_t)p) { g_ranges.erase(g_ranges.begin() + i); return; }
}
void reg_new_range(size_t n) { g_new_min = n; }

static inline void plain(void* p)
{
    if (g_cur < 0 || !g_enabled || g_o.p_plain <= 0) return;
    uintptr_t a = (uintptr_t)p;
    for (auto& r : g_ranges)
        if (a >= r.first && a < r.second)
        {
            uintptr_t line = ((a - r.first) >> 6) + ((uintptr_t)(&r - &g_ranges[0] + 1) << 40);
            Fiber* f = g_f[g_cur];
            if (f->last_line == line) return;
            f->last_line = line;
            if (g_o.p_plain < 1000 && !chance(g_o.p_plain)) return;
            yield();
            return;
        }
}
static inline void atomic_point()
{
    if (g_cur >= 0) g_f[g_cur]->last_line = 0;
    yield();
}
} // namespace vs

// ------------------------------------------------------------------ tsan abi
#define EX extern "C" __attribute__((visibility("default")))
EX void __tsan_init() {}
EX void __tsan_func_entry(void*) {}
EX void __tsan_func_exit() {}
EX void __tsan_vptr_update(void**, void*) {}
EX void __tsan_vptr_read(void**) {}
#define RWN(n) \
    EX void __tsan_read##n(void* p) { vs::plain(p); } \
    EX void __tsan_write##n(void* p) { vs::plain(p); } \
    EX void __tsan_unaligned_read##n(void* p) { vs::plain(p); } \
    EX void __tsan_unaligned_write##n(void* p) { vs::plain(p); } \
    EX void __tsan_volatile_read##n(void* p) { vs::plain(p); } \
    EX void __tsan_volatile_write##n(void* p) { vs::plain(p); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
EX void __tsan_read_range(void* p, size_t) { vs::plain(p); }
EX void __tsan_write_range(void* p, size_t) { vs::plain(p); }
#define AT(bits, T) \
    EX T __tsan_atomic##bits##_load(const volatile T* a, int) { vs::atomic_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    EX void __tsan_atomic##bits##_store(volatile T* a, T v, int) { vs::atomic_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { vs::atomic_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    EX int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { vs::atomic_point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EX int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { vs::atomic_point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EX T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { vs::atomic_point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long long)
EX void __tsan_atomic_thread_fence(int) { vs::atomic_point(); }
EX void __tsan_atomic_signal_fence(int) {}

void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (n >= vs::g_new_min) vs::add_range(p, n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && !vs::g_ranges.empty()) vs::del_range(p); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ initialisation of static variables
EX int __cxa_guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    while (true)
    {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (vs::g_cur >= 0) vs::sleep_us(1000); else abort();
    }
}
EX void __cxa_guard_release(uint64_t* g) { ((char*)g)[0] = 1; ((char*)g)[1] = 0; }
EX void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }

// ------------------------------------------------------------------ system calls made directly
EX long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_gettid) return getpid() + (vs::g_cur > 0 ? vs::g_cur : 0);
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ pthread
using namespace vs;
EX int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    int e = hit_fault("pthread_create", "");
    if (e) return e;
    Fiber* f = make(false);
    f->pfn = fn;
    f->arg = arg;
    if (g_o.p_born && g_fair == 0 && chance(g_o.p_born))
    {
        f->st = SLEEPING;
        f->wake = g_now + (long long)(rnd() % (g_o.born_us + 1));
    }
    *t = (pthread_t)(f->id + 1001);
    yield();
    return 0;
}
EX int pthread_join(pthread_t t, void** ret)
{
    int id = (int)((long)t - 1001);
    if (id < 0 || id >= (int)g_f.size()) return ESRCH;
    yield();
    while (g_f[id]->st != FINISHED)
    {
        Fiber* f = g_f[g_cur];
        f->st = BLOCKED_JOIN;
        f->wait_join = id;
        to_main();
    }
    if (ret) *ret = g_f[id]->ret;
    return 0;
}
EX int pthread_detach(pthread_t) { return 0; }
EX pthread_t pthread_self() { return (pthread_t)(g_cur + 1001); }
EX int sched_yield()
{
    if (g_cur >= 0 && g_enabled) { g_step++; to_main(); }
    return 0;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }
EX int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset((void*)m, 0, sizeof *m);
    int kind = 0;
    if (a) pthread_mutexattr_gettype(a, &kind);
    m->__data.__kind = kind;
    g_mtx.erase(m);
    return 0;
}
EX int pthread_mutex_destroy(pthread_mutex_t* m) { g_mtx.erase(m); return 0; }
EX int pthread_mutex_trylock(pthread_mutex_t* m)
{
    atomic_point();
    Mtx& x = g_mtx[m];
    if (x.owner < 0 && x.count == 0) { x.owner = g_cur; x.count = 1; return 0; }
    if (x.owner == g_cur && recursive(m)) { x.count++; return 0; }
    return EBUSY;
}
EX int pthread_mutex_lock(pthread_mutex_t* m)
{
    atomic_point();
    for (;;)
    {
        Mtx& x = g_mtx[m];
        if (x.count == 0) { x.owner = g_cur; x.count = 1; return 0; }
        if (x.owner == g_cur && recursive(m)) { x.count++; return 0; }
        if (g_cur < 0) { x.count++; return 0; }
        Fiber* f = g_f[g_cur];
        f->st = BLOCKED_MUTEX;
        f->wait_on = m;
        to_main();
    }
}
EX int pthread_mutex_unlock(pthread_mutex_t* m)
{
    Mtx& x = g_mtx[m];
    if (x.count > 0 && --x.count == 0)
    {
        x.owner = -1;
        for (auto* f : g_f)
            if (f->st == BLOCKED_MUTEX && f->wait_on == m) f->st = RUNNABLE;
    }
    atomic_point();
    return 0;
}
EX int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
EX int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (g_cur < 0) return 0;
    Fiber* f = g_f[g_cur];
    Mtx save = g_mtx[m];
    g_mtx[m] = Mtx();
    for (auto* x : g_f)
        if (x->st == BLOCKED_MUTEX && x->wait_on == m) x->st = RUNNABLE;
    f->st = BLOCKED_COND;
    f->wait_on = c;
    f->timed = ts != nullptr;
    if (ts) f->wake = ts->tv_sec * 1000000LL + ts->tv_nsec / 1000;
    to_main();
    f = g_f[g_cur];
    bool to = f->timed && f->wait_on == nullptr;
    f->timed = false;
    pthread_mutex_lock(m);
    g_mtx[m].count = save.count;
    return to ? ETIMEDOUT : 0;
}
EX int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, nullptr); }
EX int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, ts); }
EX int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return cond_wait(c, m, ts); }
EX int pthread_cond_broadcast(pthread_cond_t* c)
{
    for (auto* x : g_f)
        if (x->st == BLOCKED_COND && x->wait_on == c) x->st = RUNNABLE;
    atomic_point();
    return 0;
}
EX int pthread_cond_signal(pthread_cond_t* c)
{
    for (auto* x : g_f)
        if (x->st == BLOCKED_COND && x->wait_on == c) { x->st = RUNNABLE; break; }
    atomic_point();
    return 0;
}

// ------------------------------------------------------------------ time
EX int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    sleep_us(ts->tv_sec * 1000000L + (ts->tv_nsec + 999) / 1000);
    if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
    return 0;
}
EX int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*)
{
    long us = ts->tv_sec * 1000000L + (ts->tv_nsec + 999) / 1000;
    if (flags & TIMER_ABSTIME) us -= now_us();
    sleep_us(us);
    return 0;
}
EX int usleep(useconds_t us) { sleep_us(us); return 0; }
EX unsigned sleep(unsigned s) { sleep_us(s * 1000000L); return 0; }
EX time_t time(time_t* t) noexcept
{
    time_t v = (time_t)(g_now / 1000000);
    if (t) *t = v;
    return v;
}
EX int gettimeofday(struct timeval* tv, void*) noexcept
{
    tv->tv_sec = g_now / 1000000;
    tv->tv_usec = g_now % 1000000;
    return 0;
}
EX int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
    ts->tv_sec = g_now / 1000000;
    ts->tv_nsec = (g_now % 1000000) * 1000;
    return 0;
}

// ------------------------------------------------------------------ faults and files
namespace vs
{
static std::vector<Fault> g_faults;
bool g_unbuffered = false;
static std::set<FILE*> g_open;
static std::map<FILE*, std::string> g_open_path;
void add_fault(const Fault& f) { g_faults.push_back(f); }
void clear_faults() { g_faults.clear(); }
int hit_fault(const char* fn, const char* path)
{
    for (auto& f : g_faults)
        if (f.fn == fn && (f.path.empty() || (path && strstr(path, f.path.c_str()))))
        {
            if (f.skip > 0) { f.skip--; continue; }
            if (f.count == 0) continue;
            if (f.count > 0) f.count--;
            return f.err;
        }
    return 0;
}
}
static inline void io_point()
{
    g_io++;
    atomic_point();
}
EX FILE* fopen(const char* path, const char* mode)
{
    io_point();
    int e = hit_fault("fopen", path);
    if (e) { errno = e; return nullptr; }
    FILE* f = REAL(fopen)(path, mode);
    if (f && g_unbuffered && strchr(mode, 'a')) setvbuf(f, nullptr, _IONBF, 0);
    if (f) { g_open.insert(f); g_open_path[f] = path; }
    return f;
}
EX FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
EX int fclose(FILE* f)
{
    io_point();
    g_open.erase(f);
    g_open_path.erase(f);
    return REAL(fclose)(f);
}
EX int fflush(FILE* f)
{
    if (f && g_open.count(f)) io_point();
    return REAL(fflush)(f);
}
EX size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
{
    io_point();
    if (f && g_open.count(f))
    {
        int e = hit_fault("fwrite", g_open_path[f].c_str());
        if (e) { errno = e; return 0; }
    }
    return REAL(fwrite)(p, s, n, f);
}
EX int fputs(const char* s, FILE* f)
{
    io_point();
    return REAL(fputs)(s, f);
}
EX int puts(const char* s)
{
    io_point();
    return REAL(puts)(s);
}
EX int putchar(int c)
{
    io_point();
    return REAL(putchar)(c);
}
EX int printf(const char* fmt, ...)
{
    io_point();
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
EX int rename(const char* a, const char* b) noexcept
{
    io_point();
    int e = hit_fault("rename", a);
    if (e) { errno = e; return -1; }
    return (int)syscall(SYS_rename, a, b);
}
EX int remove(const char* a) noexcept
{
    io_point();
    int e = hit_fault("remove", a);
    if (e) { errno = e; return -1; }
    return REAL(remove)(a);
}
EX int mkdir(const char* a, mode_t m) noexcept
{
    io_point();
    int e = hit_fault("mkdir", a);
    if (e) { errno = e; return -1; }
    return (int)syscall(SYS_mkdir, a, m);
}
EX DIR* opendir(const char* a)
{
    int e = hit_fault("opendir", a);
    if (e) { errno = e; return nullptr; }
    return REAL(opendir)(a);
}
EX int fsync(int) { return 0; }
EX int fdatasync(int) { return 0; }
EX int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
EX int posix_fadvise64(int, off64_t, off64_t, int) noexcept { return 0; }

// ------------------------------------------------------------------ System V shared memory stand-in
struct Seg { key_t key; int id; int fd; size_t size; bool dead; };
static std::vector<Seg> g_segs;
static std::map<void*, int> g_att;
static int g_next_seg = 5;
EX int shmget(key_t key, size_t size, int flg) noexcept
{
    io_point();
    int e = hit_fault("shmget", "");
    if (e) { errno = e; return -1; }
    for (auto& s : g_segs)
        if (!s.dead && s.key == key)
        {
            if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
            if (size > s.size) { errno = EINVAL; return -1; }
            return s.id;
        }
    if (!(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
    Seg s;
    s.key = key;
    s.id = g_next_seg++;
    s.fd = memfd_create("shm", 0);
    s.size = size;
    s.dead = false;
    if (ftruncate(s.fd, (off_t)((size + 4095) & ~4095UL)) != 0) { errno = ENOMEM; return -1; }
    g_segs.push_back(s);
    return s.id;
}
EX void* shmat(int id, const void*, int) noexcept
{
    io_point();
    int e = hit_fault("shmat", "");
    if (e) { errno = e; return (void*)-1; }
    for (auto& s : g_segs)
        if (s.id == id && !s.dead)
        {
            void* p = mmap(nullptr, s.size, PROT_READ | PROT_WRITE, MAP_SHARED, s.fd, 0);
            if (p == MAP_FAILED) return (void*)-1;
            g_att[p] = id;
            add_range(p, s.size);
            return p;
        }
    errno = EINVAL;
    return (void*)-1;
}
EX int shmdt(const void* p) noexcept
{
    io_point();
    auto it = g_att.find((void*)p);
    if (it == g_att.end()) { errno = EINVAL; return -1; }
    for (auto& s : g_segs)
        if (s.id == it->second) mprotect((void*)p, s.size, PROT_NONE); // kept: an access after detach must fault
    del_range((void*)p);
    g_att.erase(it);
    return 0;
}
EX int shmctl(int id, int cmd, struct shmid_ds* ds) noexcept
{
    io_point();
    for (auto& s : g_segs)
        if (s.id == id && !s.dead)
        {
            if (cmd == IPC_RMID) { s.dead = true; close(s.fd); return 0; }
            if (cmd == IPC_STAT && ds) { memset(ds, 0, sizeof *ds); ds->shm_segsz = s.size; return 0; }
        }
    errno = EINVAL;
    return -1;
}

// ------------------------------------------------------------------ UDP stand-in
struct Sock { bool bound = false; unsigned ip = 0; unsigned short port = 0; std::deque<std::string> q; };
static std::map<int, Sock> g_socks;
namespace vs { void (*g_on_datagram)(const char* ip, int port, const char* data, int len, int received) = nullptr; }
EX int socket(int dom, int type, int proto) noexcept
{
    if (dom != AF_INET) return (int)syscall(SYS_socket, dom, type, proto);
    io_point();
    int e = hit_fault("socket", "");
    if (e) { errno = e; return -1; }
    int fd = open("/dev/null", O_RDWR);
    g_socks[fd] = Sock();
    return fd;
}
EX int close(int fd)
{
    g_socks.erase(fd);
    return (int)syscall(SYS_close, fd);
}
EX int bind(int fd, const struct sockaddr* a, socklen_t) noexcept
{
    io_point();
    int e = hit_fault("bind", "");
    if (e) { errno = e; return -1; }
    if (!g_socks.count(fd)) { errno = EBADF; return -1; }
    const struct sockaddr_in* in = (const struct sockaddr_in*)a;
    for (auto& s : g_socks)
        if (s.first != fd && s.second.bound && s.second.port == in->sin_port
            && (s.second.ip == in->sin_addr.s_addr || s.second.ip == 0 || in->sin_addr.s_addr == 0))
        {
            errno = EADDRINUSE;
            return -1;
        }
    Sock& s = g_socks[fd];
    s.bound = true;
    s.ip = in->sin_addr.s_addr;
    s.port = in->sin_port;
    return 0;
}
namespace vs
{
int udp_inject(unsigned ip, unsigned short port, const char* data, int len)
{
    int n = 0;
    for (auto& s : g_socks)
        if (s.second.bound && s.second.port == port && (s.second.ip == ip || s.second.ip == 0))
        {
            s.second.q.emplace_back(data, len);
            n++;
        }
    return n;
}
}
EX ssize_t sendto(int fd, const void* p, size_t n, int, const struct sockaddr* a, socklen_t)
{
    io_point();
    if (!g_socks.count(fd)) { errno = EBADF; return -1; }
    const struct sockaddr_in* in = (const struct sockaddr_in*)a;
    char ip[64];
    inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
    int e = hit_fault("sendto", ip);
    if (e) { errno = e; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    int rcv = udp_inject(in->sin_addr.s_addr, in->sin_port, (const char*)p, (int)n);
    if (g_on_datagram) g_on_datagram(ip, ntohs(in->sin_port), (const char*)p, (int)n, rcv);
    return (ssize_t)n;
}
EX int setsockopt(int fd, int, int, const void*, socklen_t) noexcept
{
    if (g_socks.count(fd)) return 0;
    errno = ENOTSOCK;
    return -1;
}
EX ssize_t send(int, const void*, size_t, int) { errno = ENOTCONN; return -1; }
EX ssize_t recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr*, socklen_t*)
{
    io_point();
    int e = hit_fault("recvfrom", "");
    if (e) { errno = e; return -1; }
    auto it = g_socks.find(fd);
    if (it == g_socks.end()) { errno = EBADF; return -1; }
    if (it->second.q.empty()) { errno = EAGAIN; return -1; }
    std::string d = it->second.q.front();
    it->second.q.pop_front();
    size_t k = d.size() < n ? d.size() : n;
    memcpy(p, d.data(), k);
    if (flags & MSG_TRUNC) return (ssize_t)d.size();
    return (ssize_t)k;
}
EX ssize_t recv(int fd, void* p, size_t n, int flags) { return recvfrom(fd, p, n, flags, nullptr, nullptr); }

namespace vs
{
void env_crash()
{
    g_open.clear(); // the FILE objects are leaked: unflushed bytes are lost
    g_open_path.clear();
    for (auto& a : g_att)
        for (auto& s : g_segs)
            if (s.id == a.second)
            {
                mprotect(a.first, s.size, PROT_NONE);
                del_range(a.first);
            }
    g_att.clear();
    std::vector<int> fds;
    for (auto& s : g_socks) fds.push_back(s.first);
    for (int fd : fds) close(fd);
    g_ranges = g_statics;
}
void env_reset() {}
}
