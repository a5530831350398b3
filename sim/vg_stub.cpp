// The stacks Valgrind would know of, from the client requests the library makes.
#define VG_IMPL
#include "core.hpp"
#include "vg.hpp"
#include "valgrind/valgrind.h"
namespace {
struct R { uintptr_t lo, hi; unsigned id; };
enum { MAXR = 8192 };
R r[MAXR]; int nr = 0; unsigned next = 3;
void set( R & x, const void * a, const void * b) {      // the order of the arguments does not matter to Valgrind
    x.lo = reinterpret_cast< uintptr_t >( a); x.hi = reinterpret_cast< uintptr_t >( b);
    if ( x.lo > x.hi) { uintptr_t t = x.lo; x.lo = x.hi; x.hi = t; }
}
}
extern "C" unsigned sim_vg_register( const void * a, const void * b) {
    if ( nr >= MAXR) sim::fail( "valgrind", "thousands of stacks are registered at the same time");
    set( r[nr], a, b); r[nr].id = next; next += 7; return r[nr++].id;
}
extern "C" void sim_vg_deregister( unsigned id) { for ( int i = 0; i < nr; ++i) if ( r[i].id == id) { r[i] = r[--nr]; return; } sim::cov( "unknown stack deregistered"); }
extern "C" void sim_vg_change( unsigned id, const void * a, const void * b) { for ( int i = 0; i < nr; ++i) if ( r[i].id == id) { set( r[i], a, b); return; } }
namespace vg {
void handed_out( uintptr_t base, uintptr_t usable, uintptr_t sp, const char * w) {
    int n = 0;
    for ( int i = 0; i < nr; ++i) if ( r[i].lo < sp && base < r[i].hi) {
        ++n;
        if ( r[i].lo < base || r[i].lo > usable || ( r[i].hi != sp && r[i].hi != sp - 1) ) sim::fail( "valgrind", "%s: a stack is registered from %zd to %zd although it ranges from 0 to %zu", w, static_cast< ssize_t >( r[i].lo - base), static_cast< ssize_t >( r[i].hi - base), static_cast< size_t >( sp - base) );
    }
    if ( n != 1) sim::fail( "valgrind", "%s: a stack in use is registered %d times", w, n);
    sim::cov( "registered stack checked");
}
void given_back( uintptr_t base, uintptr_t sp, const char * w) {
    for ( int i = 0; i < nr; ++i) if ( r[i].lo < sp && base < r[i].hi) sim::fail( "valgrind", "%s: memory that is no stack any more is still registered as one", w);
}
int count() { return nr; }
}
