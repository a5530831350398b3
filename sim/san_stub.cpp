// Stand-ins for the sanitizer runtime's fiber interface that check the protocol the library has to follow.
#include "core.hpp"
#include "env.hpp"
#include <pthread.h>
#include <cstring>
using sim::fail;
extern "C" { int __real_swapcontext( void *, void *); int __real_setcontext( void *); }
enum { MAXT = 16, MAXC = 400 };
struct Thr { bool used; pthread_t pt; uintptr_t lo; size_t size; bool pending; uintptr_t nlo; size_t nsize; uint64_t starts, finishes, swaps; void * cur, * init; bool announced; };
static Thr th[MAXT]; static int nt = 0;
static Thr & me_() {
    for ( int i = 0; i < nt; ++i) if ( th[i].used && pthread_equal( th[i].pt, pthread_self() ) ) return th[i];
    Thr * t = nullptr; for ( int i = 0; i < nt && ! t; ++i) if ( ! th[i].used) t = & th[i];
    if ( ! t) { if ( nt < MAXT) t = & th[nt++]; else fail( "harness-san", "threads"); }
    memset( t, 0, sizeof( *t) ); t->used = true; t->pt = pthread_self();
    pthread_attr_t a; pthread_getattr_np( pthread_self(), & a); void * b; size_t n; pthread_attr_getstack( & a, & b, & n); pthread_attr_destroy( & a);
    t->lo = reinterpret_cast< uintptr_t >( b); t->size = n; return *t;
}
#if defined(BOOST_USE_ASAN)
struct Tok { uintptr_t lo; uint64_t tok; bool thread; }; static Tok tok[MAXC]; static int ntok = 0; static uint64_t next_tok = 0x1000;
static Tok & tok_of( uintptr_t lo) { for ( int i = 0; i < ntok; ++i) if ( tok[i].lo == lo) return tok[i]; if ( ntok >= MAXC) fail( "harness-san", "stacks"); Tok & t = tok[ntok++]; t.lo = lo; t.tok = 0; t.thread = false; return t; }
static uintptr_t here() { return reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ); }
extern "C" {
void __sanitizer_start_switch_fiber( void ** save, const void * bottom, size_t size) {
    Thr & t = me_(); ++t.starts;
    if ( t.pending) fail( "sanitizer", "a switch is announced twice");
    uintptr_t sp = here();
    if ( sp < t.lo || sp >= t.lo + t.size) fail( "sanitizer", "a switch is announced from a stack the tool does not know as current");
    Tok & k = tok_of( t.lo);
    pthread_attr_t a; pthread_getattr_np( pthread_self(), & a); void * b; size_t n; pthread_attr_getstack( & a, & b, & n); pthread_attr_destroy( & a);
    if ( t.lo == reinterpret_cast< uintptr_t >( b) ) k.thread = true;
    if ( save) { if ( k.tok) fail( "sanitizer", "a context is left a second time without having been entered"); k.tok = next_tok += 16; *save = reinterpret_cast< void * >( k.tok); }
    else { k.tok = 0; sim::cov( "switch announced as final"); }
    t.pending = true; t.nlo = reinterpret_cast< uintptr_t >( bottom); t.nsize = size;
}
void __sanitizer_finish_switch_fiber( void * token, const void ** ob, size_t * os) {
    Thr & t = me_(); ++t.finishes;
    if ( ! t.pending) fail( "sanitizer", "a switch is completed that was not announced");
    uintptr_t sp = here();
    if ( sp < t.nlo || sp >= t.nlo + t.nsize) fail( "sanitizer", "the announced stack bounds are not those of the stack that was entered");
    uintptr_t base; size_t sz;
    if ( env::find_block( reinterpret_cast< void * >( t.nlo), base, sz) ) { if ( t.nlo < base || t.nlo + t.nsize > base + sz) fail( "sanitizer", "the announced bounds exceed the memory of the stack"); }
    else if ( env::page_prot( reinterpret_cast< void * >( t.nlo) ) >= 0 && env::page_prot( reinterpret_cast< void * >( t.nlo + t.nsize - 1) ) < 0) fail( "sanitizer", "the announced bounds exceed the mapping of the stack");
    Tok & k = tok_of( t.nlo);
    if ( reinterpret_cast< uint64_t >( token) != k.tok) fail( "sanitizer", token ? "a switch is completed with a token that was not saved for this context" : "a switch is completed without the token saved for this context");
    k.tok = 0;
    if ( ob) *ob = reinterpret_cast< void * >( t.lo); if ( os) *os = t.size;
    t.lo = t.nlo; t.size = t.nsize; t.pending = false; t.announced = true;
}
int __wrap_swapcontext( void * a, void * b) { Thr & t = me_(); ++t.swaps; if ( ! t.pending) fail( "sanitizer", "a switch happens without having been announced"); return __real_swapcontext( a, b); }
int __wrap_setcontext( void * a) { Thr & t = me_(); ++t.swaps; if ( ! t.pending) fail( "sanitizer", "a switch happens without having been announced"); return __real_setcontext( a); }
}
void san_woke( int me) {
    Thr & t = me_();
    if ( t.pending) fail( "sanitizer", "context %d runs but its switch was not completed", me);
    if ( t.starts != t.finishes || t.starts != t.swaps) fail( "sanitizer", "%llu switches announced, %llu completed, %llu performed", (unsigned long long) t.starts, (unsigned long long) t.finishes, (unsigned long long) t.swaps);
    sim::cov( "announcement checked");
}
void san_bind( int) { me_(); }
void san_thread() { for ( int i = 0; i < nt; ++i) if ( pthread_equal( th[i].pt, pthread_self() ) ) th[i].used = false; me_(); }   // the id of a thread that has ended can be used again
void san_final() { for ( int i = 0; i < ntok; ++i) if ( tok[i].tok && ! tok[i].thread) fail( "sanitizer", "a context ended without giving up its token"); }
#else
struct Fib { bool live, thread; int ctx; }; static Fib fib[MAXC]; static int nf = 0; static int obj_of[MAXC];
static Fib * F( void * p) { uintptr_t i = reinterpret_cast< uintptr_t >( p) - 0x7000; if ( ! p || i >= static_cast< uintptr_t >( nf) ) fail( "sanitizer", "a tool-side context object is used that does not exist"); return & fib[i]; }
static void * mk( bool thread) { if ( nf >= MAXC) fail( "harness-san", "fibers"); fib[nf].live = true; fib[nf].thread = thread; fib[nf].ctx = -1; return reinterpret_cast< void * >( static_cast< uintptr_t >( 0x7000 + nf++) ); }
extern "C" {
void * __tsan_get_current_fiber() { Thr & t = me_(); if ( ! t.cur) t.cur = t.init = mk( true); return t.cur; }
void * __tsan_create_fiber( unsigned) { sim::cov( "tool-side context created"); return mk( false); }
void __tsan_destroy_fiber( void * p) {
    Fib * f = F( p); if ( ! f->live) fail( "sanitizer", "a tool-side context object is destroyed twice"); if ( f->thread) fail( "sanitizer", "the tool-side object of a thread is destroyed");
    for ( int i = 0; i < nt; ++i) if ( th[i].used && th[i].cur == p) fail( "sanitizer", "the tool-side object of the running context is destroyed");
    f->live = false; sim::cov( "tool-side context destroyed");
}
void __tsan_switch_to_fiber( void * p, unsigned flags) {
    __tsan_get_current_fiber(); Thr & t = me_(); ++t.starts; if ( t.pending) fail( "sanitizer", "a switch is announced twice");
    Fib * f = F( p); if ( ! f->live) fail( "sanitizer", "a switch to a destroyed tool-side context is announced"); if ( flags & 1u) fail( "sanitizer", "the switch does not synchronise");
    for ( int i = 0; i < nt; ++i) if ( th[i].used && & th[i] != & t && th[i].cur == p) fail( "sanitizer", "a tool-side context is current on two threads");
    t.cur = p; t.pending = true;
}
int __wrap_swapcontext( void * a, void * b) { Thr & t = me_(); ++t.swaps; if ( ! t.pending) fail( "sanitizer", "a switch happens without having been announced"); t.pending = false; return __real_swapcontext( a, b); }
int __wrap_setcontext( void * a) { Thr & t = me_(); ++t.swaps; if ( ! t.pending) fail( "sanitizer", "a switch happens without having been announced"); t.pending = false; return __real_setcontext( a); }
}
void san_woke( int me) {
    __tsan_get_current_fiber(); Thr & t = me_();
    if ( t.pending || t.starts != t.swaps) fail( "sanitizer", "a switch was announced but not performed");
    Fib * f = F( t.cur); if ( ! f->live) fail( "sanitizer", "context %d runs with a destroyed tool-side object", me);
    if ( f->ctx < 0) { f->ctx = me; if ( obj_of[me] && obj_of[me] != static_cast< int >( f - fib) + 1) fail( "sanitizer", "context %d is announced with a different tool-side object than before", me); obj_of[me] = static_cast< int >( f - fib) + 1; }
    else if ( f->ctx != me) fail( "sanitizer", "context %d runs, but context %d was announced", me, f->ctx);
    sim::cov( "announcement checked");
}
void san_thread() { for ( int i = 0; i < nt; ++i) if ( pthread_equal( th[i].pt, pthread_self() ) ) th[i].used = false; me_(); }   // the id of a thread that has ended can be used again
void san_bind( int me) { if ( obj_of[me]) fail( "harness-san", "rebind"); __tsan_get_current_fiber(); san_woke( me); }
void san_final() { for ( int i = 0; i < nf; ++i) if ( fib[i].live && ! fib[i].thread) fail( "sanitizer", "a tool-side context object was never destroyed"); }
#endif
void san_dead( int) {}
