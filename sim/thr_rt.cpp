// Runtime for instrumented code: baton scheduler, vector clocks, race and use-after-free detection, C++11 atomics with stale reads.
#include "thr.hpp"
#include "core.hpp"
#include "env.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <new>
extern "C" { void * __real_malloc( size_t); }
using sim::fail; using sim::choose;
namespace env { bool block_state( uintptr_t a, uintptr_t & base, size_t & size, bool & live); }
namespace thr {
struct VC { uint32_t c[MAXTH]; };
static void join( VC & a, VC const& b) { for ( int i = 0; i < MAXTH; ++i) if ( b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct Th { pthread_t pt; sem_t sem; bool alive, started; int wait_kind; uintptr_t wait; VC c, rel, acq; };
static Th T[MAXTH]; static sem_t all_done; static int n_th = 0; static volatile int cur = 0; static volatile bool act = false; static int mute = 0; static void (*the_body)( int);
alignas( 4096) static char stacks[MAXTH][512 * 1024];
static long quantum = 0; // a thread that ran its last operation and executes its thread_local destructors
static volatile int exiting = -1, next_ = -1; static uint64_t n_acc = 0, n_sw = 0; static long budget = 400000; static int qprofile = 0;
int self() { return cur; }
bool active() { return act && ! mute; }
void off() { ++mute; }
void on() { --mute; }
uint64_t accesses() { return n_acc; }
uint64_t switches() { return n_sw; }

static void reap() { if ( exiting >= 0) { int e = exiting; pthread_join( T[e].pt, nullptr); ++T[e].c.c[e]; exiting = -1; cur = next_; } }
static void give( int u) { int me = cur; if ( u == me) return; ++n_sw; sim::sched( static_cast< uint32_t >( me), static_cast< uint32_t >( u), 40); cur = u; int m = mute; mute = 0; sem_post( & T[u].sem); while ( sem_wait( & T[me].sem) ) {} reap(); mute = m; }
static int runnable( int * r) { int n = 0; if ( T[cur].alive && ! T[cur].wait_kind) r[n++] = cur; for ( int i = 0; i < n_th; ++i) if ( i != cur && T[i].alive && ! T[i].wait_kind) r[n++] = i; return n; }
static int pick() {
    int r[MAXTH], n = runnable( r);
    sim::block();
    uint32_t w = choose( 60), q = choose( 56); q = q ? 1 + q % 11 : 0;
    static const int Q[3][12] = { { 100000, 0, 1, 2, 3, 4, 6, 9, 14, 22, 40, 90 }, { 100000, 0, 0, 0, 1, 1, 1, 2, 2, 3, 5, 12 }, { 100000, 5, 10, 20, 30, 60, 90, 150, 220, 400, 800, 50 } };
    quantum = Q[qprofile][q];
    if ( ! n) return -1;
    return r[w * static_cast< uint32_t >( n) / 60];
}
static void dead() {
    for ( int i = 0; i < n_th; ++i) if ( T[i].alive) fail( "deadlock", "all threads wait (thread %d waits for %s)", i, T[i].wait_kind == 1 ? "a mutex" : T[i].wait_kind == 2 ? "a static initialisation" : "a once flag");
}
static void block_on( int kind, uintptr_t what) {
    T[cur].wait_kind = kind; T[cur].wait = what;
    int u = pick(); if ( u < 0) dead();
    give( u);
}
static void wake( int kind, uintptr_t what) { for ( int i = 0; i < n_th; ++i) if ( T[i].wait_kind == kind && T[i].wait == what) T[i].wait_kind = 0; }
void point() {
    if ( ! active() || exiting >= 0) return;
    if ( --budget < 0) fail( "no-progress", "the threads made no progress within the step limit");
    sim::step();
    if ( quantum-- > 0) return;
    int u = pick(); give( u);
}

// ---- shadow memory ------------------------------------------------------------
struct Cell { uint32_t w[MAXTH], r[MAXTH], aw[MAXTH], ar[MAXTH]; };
enum { SP = 128, HB = 1 << 13 };
struct Page { uintptr_t base; Page * next; Cell c[SP]; };
static Page * tab[HB];
static Page * page_of( uintptr_t a, bool make) {
    uintptr_t b = a & ~uintptr_t( SP - 1); size_t h = ( b / SP * 0x9E3779B97F4A7C15ull) >> 51;
    for ( Page * p = tab[h]; p; p = p->next) if ( p->base == b) return p;
    if ( ! make) return nullptr;
    Page * p = static_cast< Page * >( __real_malloc( sizeof( Page) ) ); memset( static_cast< void * >( p), 0, sizeof( Page) ); p->base = b; p->next = tab[h]; tab[h] = p; return p;
}
extern "C" char __data_start, _end;
// tracked memory: static data of the program, the simulated heap and mappings; not thread stacks, thread_local data and the C++ runtime's own heap (exception objects)
static bool on_stack( uintptr_t a) {
    if ( a >= 0x610000000000ull && a < 0x640000000000ull) return false;
    if ( a < reinterpret_cast< uintptr_t >( & __data_start) || a >= reinterpret_cast< uintptr_t >( & _end) ) return true;
    return a >= reinterpret_cast< uintptr_t >( stacks) && a < reinterpret_cast< uintptr_t >( stacks) + sizeof( stacks); }
static const char * where( uintptr_t a) {
    static char b[100]; uintptr_t base; size_t n; bool live;
    if ( env::block_state( a, base, n, live) ) snprintf( b, sizeof( b), "offset %zu of a heap block of %zu bytes", static_cast< size_t >( a - base), n);
    else snprintf( b, sizeof( b), "a global");
    return b;
}
static bool before( uint32_t const* e, bool self_ok = true) { (void) self_ok; VC & c = T[cur].c; for ( int i = 0; i < n_th; ++i) if ( i != cur && e[i] > c.c[i]) return false; return true; }
enum { RD, WR, ARD, AWR };
static void check_cell( Cell & c, int k, uintptr_t a) {
    bool bad = false; const char * o = "";
    if ( ! before( c.w) ) { bad = true; o = "a write"; }
    else if ( k != ARD && k != AWR && ! before( c.aw) ) { bad = true; o = "an atomic write"; }
    else if ( k == WR && ! before( c.ar) ) { bad = true; o = "an atomic read"; }
    else if ( ( k == WR || k == AWR) && ! before( c.r) ) { bad = true; o = "a read"; }
    if ( bad) fail( "data-race", "%s by thread %d of %s is not ordered after %s by another thread", k == RD ? "read" : k == WR ? "write" : "atomic access", cur, where( a), o);
    uint32_t e = T[cur].c.c[cur];
    switch ( k) { case RD: c.r[cur] = e; break; case WR: c.w[cur] = e; break; case ARD: c.ar[cur] = e; break; default: c.aw[cur] = e; }
}
static void touch( uintptr_t a, size_t n, int k) {
    if ( on_stack( a) ) return;
    uintptr_t base; size_t z; bool live;
    if ( env::block_state( a, base, z, live) ) { if ( ! live) fail( "use-after-free", "%s of offset %zu of a released block of %zu bytes by thread %d", k == RD || k == ARD ? "read" : "write", static_cast< size_t >( a - base), z, cur); if ( a + n > base + z) fail( "memory-overrun", "access beyond a heap block of %zu bytes", z); }
    ++n_acc;
    for ( size_t i = 0; i < n; ++i) { Page * p = page_of( a + i, true); check_cell( p->c[( a + i) & ( SP - 1)], k, a + i); }
}
void access( uintptr_t a, size_t n, bool w) {
    if ( ! active() || on_stack( a) ) return;
    point(); touch( a, n, w ? WR : RD);
}
static void on_release( uintptr_t a, size_t n, const char *) {
    if ( ! act) return;
    ++T[cur].c.c[cur];
    for ( int h = 0; h < HB; ++h) for ( Page * p = tab[h]; p; p = p->next) if ( p->base + SP > a && p->base < a + n) for ( int i = 0; i < SP; ++i) if ( p->base + i >= a && p->base + i < a + n) {
        Cell & c = p->c[i];
        if ( ! before( c.w) || ! before( c.r) || ! before( c.aw) || ! before( c.ar) )
            fail( "data-race", "thread %d releases memory (%s) although it is not ordered after an access by another thread", cur, where( p->base + i) );
    }
}
// ---- synchronisation ------------------------------------------------------------
struct Sync { uintptr_t a; VC c; int owner, state; };
enum { NSYNC = 256 }; static Sync sy[NSYNC]; static int nsy = 0;
static Sync & sync_of( uintptr_t a) { for ( int i = 0; i < nsy; ++i) if ( sy[i].a == a) return sy[i]; if ( nsy == NSYNC) fail( "harness-sync", "too many"); Sync & s = sy[nsy++]; memset( & s, 0, sizeof( s) ); s.a = a; s.owner = -1; return s; }
static void acquire( VC const& v) { join( T[cur].c, v); }
static void release( VC & v) { join( v, T[cur].c); ++T[cur].c.c[cur]; }
static void mlock( uintptr_t a) { point(); for (;;) { Sync & s = sync_of( a); if ( s.owner < 0) { s.owner = cur; acquire( s.c); return; } if ( s.owner == cur) fail( "deadlock", "mutex locked twice by thread %d", cur); block_on( 1, a); } }
static void munlock( uintptr_t a) { Sync & s = sync_of( a); if ( s.owner != cur) fail( "harness-mutex", "unlock by another thread"); release( s.c); s.owner = -1; wake( 1, a); point(); }
void lock( int m) { mlock( static_cast< uintptr_t >( 16 + m) ); }
void unlock( int m) { munlock( static_cast< uintptr_t >( 16 + m) ); }

// ---- atomics -----------------------------------------------------------------------
struct Store { uint64_t v; int tid; uint32_t clk; VC rel; bool has_rel; uint32_t rd[MAXTH]; };
enum { HIST = 12, NLOC = 512 };
struct Loc { uintptr_t a; int n; Store s[HIST]; };
static Loc * loc[NLOC]; static int nloc = 0;
static Loc & loc_of( uintptr_t a, uint64_t now) {
    Loc * l = nullptr;
    for ( int i = 0; i < nloc; ++i) if ( loc[i]->a == a) { l = loc[i]; break; }
    if ( ! l) { if ( nloc == NLOC) fail( "harness-atomic", "too many"); l = static_cast< Loc * >( __real_malloc( sizeof( Loc) ) ); memset( static_cast< void * >( l), 0, sizeof( Loc) ); l->a = a; loc[nloc++] = l; }
    if ( l->n == 0 || l->s[l->n - 1].v != now) {      // initialised or overwritten by a plain store
        l->n = 1; memset( static_cast< void * >( & l->s[0]), 0, sizeof( Store) ); l->s[0].v = now; l->s[0].tid = cur; }
    return *l;
}
static bool is_acq( int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel( int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void see( Store & s, int mo) { if ( s.has_rel) { if ( is_acq( mo) ) acquire( s.rel); else join( T[cur].acq, s.rel); } s.rd[cur] = T[cur].c.c[cur]; }
static void push( Loc & l, uint64_t v, int mo, bool rmw) {
    Store n; memset( static_cast< void * >( & n), 0, sizeof( n) ); n.v = v; n.tid = cur; n.clk = T[cur].c.c[cur];
    if ( is_rel( mo) ) { n.rel = T[cur].c; n.has_rel = true; }
    else { n.rel = T[cur].rel; for ( int i = 0; i < MAXTH; ++i) if ( n.rel.c[i]) n.has_rel = true; }
    if ( rmw) { Store & o = l.s[l.n - 1]; if ( o.has_rel) { join( n.rel, o.rel); n.has_rel = true; } }
    if ( l.n == HIST) { memmove( static_cast< void * >( & l.s[0]), & l.s[1], sizeof( Store) * ( HIST - 1) ); --l.n; }
    l.s[l.n++] = n; ++T[cur].c.c[cur];
}
static uint64_t at_load( uintptr_t a, size_t sz, uint64_t now, int mo) {
    point(); touch( a, sz, ARD);
    memcpy( & now, reinterpret_cast< void * >( a), sz);        // other threads may have run at the scheduling point
    Loc & l = loc_of( a, now); int k = l.n - 1, lo = k;
    if ( mo != 5) {
        for ( ; lo > 0; --lo) { Store & s = l.s[lo]; bool seen = s.tid == cur || s.clk <= T[cur].c.c[s.tid]; for ( int i = 0; i < n_th; ++i) if ( s.rd[i] && ( i == cur || s.rd[i] <= T[cur].c.c[i]) ) seen = true; if ( seen) break; }
        if ( lo < k && choose( 3) == 2) { k -= static_cast< int >( choose( static_cast< uint32_t >( k - lo + 1) ) ); if ( k < l.n - 1) sim::cov( "stale atomic read"); }
    }
    see( l.s[k], mo); return l.s[k].v;
}
static void at_pre( uintptr_t a, size_t sz) { point(); touch( a, sz, AWR); }
static void at_store( uintptr_t a, uint64_t now, uint64_t v, int mo) { push( loc_of( a, now), v, mo, false); }
static void at_rmw( uintptr_t a, uint64_t now, uint64_t v, int mo) { Loc & l = loc_of( a, now); see( l.s[l.n - 1], mo); push( l, v, mo, true); sim::cov( "atomic update"); }
static void fence( int mo) { point(); if ( is_acq( mo) ) join( T[cur].c, T[cur].acq); if ( is_rel( mo) ) { T[cur].rel = T[cur].c; ++T[cur].c.c[cur]; } }

// ---- threads ---------------------------------------------------------------------------
static void * main_( void * v) {
    int u = static_cast< int >( reinterpret_cast< intptr_t >( v) );
    while ( sem_wait( & T[u].sem) ) {}
    reap();
    the_body( u);
    T[u].alive = false;
    int n = pick();
    if ( n < 0) for ( int i = 0; i < n_th; ++i) if ( T[i].alive) dead();
    exiting = u; next_ = n; mute = 0;
    if ( n >= 0) { ++n_sw; sim::sched( static_cast< uint32_t >( u), static_cast< uint32_t >( n), 41); sem_post( & T[n].sem); }      // the next thread waits until this one is gone
    else sem_post( & all_done);
    return nullptr;
}
void start( int n, void (*body)( int) ) {
    env::release_hook( on_release); the_body = body; n_th = n; sem_init( & all_done, 0, 0); qprofile = static_cast< int >( choose( 3) );
    for ( int i = 0; i < n; ++i) { sem_init( & T[i].sem, 0, 0); memset( & T[i].c, 0, sizeof( VC) ); T[i].c.c[i] = 1; T[i].alive = true; T[i].wait_kind = 0; }
    for ( int i = 0; i < n; ++i) {
        pthread_attr_t at; pthread_attr_init( & at); pthread_attr_setstack( & at, stacks[i], sizeof( stacks[i]) );
        if ( pthread_create( & T[i].pt, & at, main_, reinterpret_cast< void * >( static_cast< intptr_t >( i) ) ) ) fail( "harness-thread", "pthread_create");
    }
    act = true; cur = 0; int f = pick(); cur = f; sem_post( & T[f].sem);
    while ( sem_wait( & all_done) ) {}
    reap(); act = false; env::release_hook( nullptr);
}
}
using namespace thr;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void *) {}
void __tsan_func_exit() {}
#define RW( N) \
void __tsan_read##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, false); } \
void __tsan_write##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, true); } \
void __tsan_unaligned_read##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, false); } \
void __tsan_unaligned_write##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, true); } \
void __tsan_volatile_read##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, false); } \
void __tsan_volatile_write##N( void * p) { access( reinterpret_cast< uintptr_t >( p), N, true); }
RW( 1) RW( 2) RW( 4) RW( 8) RW( 16)
void __tsan_read_range( void * p, size_t n) { access( reinterpret_cast< uintptr_t >( p), n, false); }
void __tsan_write_range( void * p, size_t n) { access( reinterpret_cast< uintptr_t >( p), n, true); }
void __tsan_vptr_update( void ** p, void *) { access( reinterpret_cast< uintptr_t >( p), 8, true); }
void __tsan_vptr_read( void ** p) { access( reinterpret_cast< uintptr_t >( p), 8, false); }
#define U( x) reinterpret_cast< uintptr_t >( x)
#define AT( B, TY) \
TY __tsan_atomic##B##_load( const volatile TY * a, int mo) { if ( ! active() || on_stack( U( a) ) ) return *a; return static_cast< TY >( at_load( U( a), sizeof( TY), static_cast< uint64_t >( *a), mo) ); } \
void __tsan_atomic##B##_store( volatile TY * a, TY v, int mo) { if ( ! active() || on_stack( U( a) ) ) { *a = v; return; } at_pre( U( a), sizeof( TY) ); at_store( U( a), static_cast< uint64_t >( *a), static_cast< uint64_t >( v), mo); *a = v; } \
TY __tsan_atomic##B##_exchange( volatile TY * a, TY v, int mo) { if ( ! active() || on_stack( U( a) ) ) { TY o = *a; *a = v; return o; } at_pre( U( a), sizeof( TY) ); TY o = *a; at_rmw( U( a), static_cast< uint64_t >( o), static_cast< uint64_t >( v), mo); *a = v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong( volatile TY * a, TY * e, TY v, int mo, int fmo) { if ( ! active() || on_stack( U( a) ) ) { if ( *a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    at_pre( U( a), sizeof( TY) ); TY o = *a; if ( o == *e) { at_rmw( U( a), static_cast< uint64_t >( o), static_cast< uint64_t >( v), mo); *a = v; return 1; } Loc & l = loc_of( U( a), static_cast< uint64_t >( o) ); see( l.s[l.n - 1], fmo); *e = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak( volatile TY * a, TY * e, TY v, int mo, int fmo) { if ( active() && ! on_stack( U( a) ) && choose( 8) == 7) { sim::cov( "spurious compare-exchange failure"); at_pre( U( a), sizeof( TY) ); Loc & l = loc_of( U( a), static_cast< uint64_t >( *a) ); see( l.s[l.n - 1], fmo); *e = *a; return 0; } return __tsan_atomic##B##_compare_exchange_strong( a, e, v, mo, fmo); } \
TY __tsan_atomic##B##_compare_exchange_val( volatile TY * a, TY e, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong( a, & e, v, mo, fmo); return e; }
#define FO( B, TY, NAME, EXPR) TY __tsan_atomic##B##_##NAME( volatile TY * a, TY v, int mo) { if ( ! active() || on_stack( U( a) ) ) { TY o = *a; *a = static_cast< TY >( EXPR); return o; } at_pre( U( a), sizeof( TY) ); TY o = *a; TY r = static_cast< TY >( EXPR); at_rmw( U( a), static_cast< uint64_t >( o), static_cast< uint64_t >( r), mo); *a = r; return o; }
#define ALL( B, TY) AT( B, TY) FO( B, TY, fetch_add, o + v) FO( B, TY, fetch_sub, o - v) FO( B, TY, fetch_and, o & v) FO( B, TY, fetch_or, o | v) FO( B, TY, fetch_xor, o ^ v) FO( B, TY, fetch_nand, ~( o & v) )
ALL( 8, uint8_t) ALL( 16, uint16_t) ALL( 32, uint32_t) ALL( 64, uint64_t)
void __tsan_atomic_thread_fence( int mo) { if ( active() ) fence( mo); }
void __tsan_atomic_signal_fence( int) {}

// function-local statics
int __cxa_guard_acquire( uint64_t * g) {
    volatile uint8_t * b = reinterpret_cast< volatile uint8_t * >( g);
    if ( ! active() ) { if ( b[0]) return 0; b[1] = 1; return 1; }
    for (;;) {
        point();
        if ( b[0]) { Loc & l = loc_of( U( b), b[0]); see( l.s[l.n - 1], 2); return 0; }
        if ( ! b[1]) { b[1] = static_cast< uint8_t >( 1 + cur); sim::cov( "static initialisation"); return 1; }
        if ( b[1] == 1 + cur) fail( "deadlock", "recursive static initialisation");
        sim::cov( "static initialisation contended"); block_on( 2, U( g) );
    }
}
void __cxa_guard_release( uint64_t * g) {
    volatile uint8_t * b = reinterpret_cast< volatile uint8_t * >( g);
    if ( ! active() ) { b[1] = 0; b[0] = 1; return; }
    at_pre( U( b), 1); at_store( U( b), b[0], 1, 3); b[0] = 1; b[1] = 0; wake( 2, U( g) );
}
void __cxa_guard_abort( uint64_t * g) { volatile uint8_t * b = reinterpret_cast< volatile uint8_t * >( g); b[1] = 0; if ( active() ) wake( 2, U( g) ); }

// mutexes and once flags of instrumented code
int __real_pthread_mutex_lock( pthread_mutex_t *); int __real_pthread_mutex_unlock( pthread_mutex_t *); int __real_pthread_mutex_trylock( pthread_mutex_t *); int __real_pthread_once( pthread_once_t *, void (*)() );
int __wrap_pthread_mutex_lock( pthread_mutex_t * m) { if ( ! active() ) return __real_pthread_mutex_lock( m); mlock( U( m) ); return 0; }
int __wrap_pthread_mutex_unlock( pthread_mutex_t * m) { if ( ! active() ) return __real_pthread_mutex_unlock( m); munlock( U( m) ); return 0; }
int __wrap_pthread_mutex_trylock( pthread_mutex_t * m) { if ( ! active() ) return __real_pthread_mutex_trylock( m); point(); Sync & s = sync_of( U( m) ); if ( s.owner >= 0) return EBUSY; s.owner = cur; acquire( s.c); return 0; }
int __wrap_pthread_once( pthread_once_t * o, void (*f)() ) {
    if ( ! active() ) return __real_pthread_once( o, f);
    for (;;) { point(); Sync & s = sync_of( U( o) ); if ( s.state == 0 && *o == 2) return 0; if ( s.state == 2) { acquire( s.c); return 0; } if ( s.state == 0) { s.state = 1; try { f(); } catch (...) { sync_of( U( o) ).state = 0; wake( 3, U( o) ); throw; } Sync & q = sync_of( U( o) ); release( q.c); q.state = 2; *o = 2 /* glibc: done */; wake( 3, U( o) ); return 0; } block_on( 3, U( o) ); }
}
}
