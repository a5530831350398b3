// Access-level simulation of threads: code compiled with -fsanitize=thread calls into thr_rt.cpp at every memory access,
// where the seeded scheduler may switch threads and happens-before is tracked.
#ifndef SIM_THR_HPP
#define SIM_THR_HPP
#include <cstddef>
#include <cstdint>
namespace thr {
enum { MAXTH = 6 };
void start( int n, void (*body)( int) );   // runs n threads to completion under the scheduler, joins them
int self();
bool active();
void point();                              // a scheduling point
// user level synchronisation of the simulated program (creates happens-before)
void lock( int m); void unlock( int m);
void access( uintptr_t a, size_t n, bool write);
void off(); void on();                     // the calling harness code is not part of the simulated program
uint64_t accesses(); uint64_t switches();
}
// operations on library objects, compiled with instrumentation (thr_ops.cpp)
namespace ops {
struct St { char * sp; size_t size; };
size_t pool_size(); size_t fiber_size();
void pool_make( void * p, size_t sz, size_t next, size_t max);
void pool_copy( void * d, void const* s); void pool_move( void * d, void * s);
void pool_assign( void * d, void const* s); void pool_massign( void * d, void * s);
void pool_swap( void * a, void * b); void pool_drop( void * p);
St pool_alloc( void * p); void pool_free( void * p, St s); void fill( St s, int v);
void fiber_make( void * d, void const* pool, void const* capture, size_t size, int id);
void fiber_make_cap( void * d, void * pool_moved, size_t size, int id);
void fiber_resume( void * f); void fiber_with( void * f, int id); void fiber_drop( void * f); void fiber_move( void * d, void * s); bool fiber_alive( void const* f);
uint64_t trait( int which);
}
// called back by the fibers' functions (thr_world.cpp)
bool thr_fiber_step( int id, int what);    // returns true if the fiber shall finish
void thr_fiber_gone( int id);
#endif
