// vsched: a deterministic cooperative scheduler for the real (unmodified) fn-log code.
// The code under test is compiled with -fsanitize=thread but linked with the __tsan_* functions below,
// so every atomic access (and every plain access to registered shared memory) is a possible preemption point.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace vs
{
enum Strat { RW = 0, PCT = 1, STALL = 2, PB = 3 };

struct Preempt { long step; int target; };
struct Opts
{
    uint64_t seed = 1;
    int strat = RW;
    int p_switch = 300;   // 1/1000 chance of a switch at a preemption point (RW, STALL)
    int p_plain = 100;    // 1/1000 chance that a plain access is a preemption point
    int p_early = 0;      // 1/1000 chance that a sleeper wakes early (time jumps) when a switch happens
    int pct_depth = 3;
    long est = 3000;      // estimated number of steps (PCT change points, stall points)
    int stalls = 2;
    long stall_steps = 400;
    long stall_us = 200000;
    int p_born = 0;           // 1/1000 chance that a thread of the library is started late, by at most
    long born_us = 2500000;
    long lim_fair = 400000;   // after that many steps: fair random schedule
    long lim_stuck = 1200000; // after that many steps: stuck
    long crash_step = -1;     // stop the world at this step
    std::vector<Preempt> pre; // PB
};
enum Why { DONE = 0, DEADLOCK = 1, STUCK = 2, CRASHED = 3 };

void prepare();            // once, before anything else
void configure(const Opts& o);
int spawn(void (*fn)(void*), void* arg, bool driver);
Why run();                 // runs until all driver fibers are done
void abandon_all();        // drop every fiber (crash)
void crash_now();          // called in a fiber: never returns
void yield();              // preemption point
void sleep_us(long us);
long long now_us();
size_t clock_mark();       // clock_since(mark): all values of the clock after that
std::vector<long long> clock_since(size_t mark);
void set_now_us(long long t);
void advance_us(long long d);
int self();                // fiber id, -1 outside
long steps();
void fair(bool on);        // no early wake, no stalls
void add_range(void* p, size_t n);
void del_range(void* p);
int runnable_others();
void set_enabled(bool on); // preemption points enabled
std::string describe();    // who waits for what
long real_ms();
uint64_t rnd();

// simulated environment
struct Fault { std::string fn; std::string path; int skip; int count; int err; };
void add_fault(const Fault& f);
void clear_faults();
int hit_fault(const char* fn, const char* path); // errno or 0
extern bool g_unbuffered;
void env_crash();          // open files are lost, shared memory survives (at another address), sockets vanish
void env_reset();
extern void (*g_on_datagram)(const char* ip, int port, const char* data, int len, int received);
int udp_inject(unsigned ip_be, unsigned short port_be, const char* data, int len); // number of receivers
void reg_new_range(size_t size); // operator new of at least this size is registered as shared memory
long io_count();
}
