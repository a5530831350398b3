// Simulated environment of the library: memory, mappings and the system calls it makes, with fault injection.
#ifndef SIM_ENV_HPP
#define SIM_ENV_HPP
#include <cstddef>
#include <cstdint>
namespace env {
enum Fault { F_MALLOC = 1, F_NEW = 2, F_MMAP = 4, F_MPROTECT = 8, F_GETCONTEXT = 16, F_ALLOCATOR = 32, F_COPY = 64, F_POSIX_MEMALIGN = 128 };
extern int lib;                        // >0: code of the library (or called by it) is running
void activate( int reuse_policy);      // 0 never reuse freed memory (and check it stays untouched), 1 reuse last freed first
bool active();
void arm( int kinds, int nth, int err = 12);  // fail the nth matching call made while lib>0
void arm_sticky( int kinds, int nth);         // every matching call from the nth on fails
void set_page_size( size_t);            // the page size of the simulated system
size_t page_size();
int disarm();                          // returns the Fault kind that fired since arm(), or 0
bool should_fail( Fault f);            // for seams implemented by a world (allocator, functor copies)
bool armed();
// ledgers
size_t live_blocks(); size_t live_bytes(); size_t mapped_pages();
uint64_t nmallocs(); uint64_t nmmaps();
void dump_live();
bool find_block( void const* p, uintptr_t & base, size_t & size);
int page_prot( void const* p);         // -1 unmapped, else PROT_ bits of a page handed out by the simulated mmap
int segment_owner( uintptr_t a); int segments_owned( int owner); uint64_t segments_grown();   // split-stack builds
void final_check();                    // leaks, red zones, writes after free
// signals: after `skip` more instructions, the next `n` instructions of this thread are each followed by a signal
void step_on( uint32_t skip, uint32_t n); void step_off(); uint64_t signals();
void * huge_map( size_t); void huge_unmap( void *, size_t);      // address space for stacks of gigabytes, leaks are seen by the worlds
void release_hook( void (*f)( uintptr_t base, size_t len, const char * how) );
struct HarnessScope { int s; HarnessScope() : s( lib) { lib = 0; } ~HarnessScope() { lib = s; } };
struct LibScope { int s; LibScope() : s( lib) { lib = 1; } ~LibScope() { lib = s; } };
}
#endif
