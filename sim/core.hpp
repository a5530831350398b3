// Deterministic simulation core: one seed (or one recorded trace) decides every choice of a run.
// C++11 compatible: included by worlds compiled against every language level of the library.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- decisions -------------------------------------------------------------
// Uniform choice in [0,n); recorded in the trace, replayed from it. 0 is always the "simplest" value.
uint32_t choose( uint32_t n);
inline bool chance( uint32_t num, uint32_t den) { return num > 0 && choose( den) >= den - num; }
void block();                        // starts a new trace block (one operation of the workload)

// ---- verdicts and history --------------------------------------------------
[[noreturn]] void fail( const char * cls, const char * fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void finish_ok();       // ends the run from inside it (expected std::terminate)
void ev( uint32_t code, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);  // implementation independent history
void sched( uint32_t from, uint32_t to, uint32_t kind);     // interleaving signature
void state( uint64_t abstraction);                          // abstract state reached
void note( const char * fmt, ...) __attribute__((format(printf,1,2)));    // verbose log only
void step();                                                // logical time
extern bool verbose;

// ---- knobs (campaign parameters, constant during a run) ---------------------
long knob( const char * name, long def);

// ---- reach counters ----------------------------------------------------------
void cov( const char * name, uint64_t n = 1);        // named probe
void fault_fired( const char * name, uint64_t n = 1);

// ---- the world ---------------------------------------------------------------
}
extern "C++" void sim_world();           // defined by each world; runs one simulation
extern "C++" void sim_zygote_init();     // once per worker process, before the first run
extern "C++" void sim_final_checks();    // after sim_world, on the child's own thread

#endif
