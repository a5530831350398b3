// Threads sharing pooled allocators, fibers and the stack traits, interleaved at every memory access of the library's code.
#include "thr.hpp"
#include "core.hpp"
#include "env.hpp"
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>
using sim::choose; using sim::fail; using sim::knob;
namespace env { extern void (*alloc_hook)( uintptr_t, size_t); extern void (*free_hook)( uintptr_t); }

enum { NS = 5, NF = 4, NP = 24, NSTK = 5, NBOX = 2, NFI = 120, OPS = 40 };
struct Pool { bool used; int live, inflight; size_t blocks; size_t size; int owner; };
static Pool P[NP]; static int npool = 0;
struct Slot { int pool; alignas( 16) char m[64]; };            // pool < 0: no object
struct Fib { int id; alignas( 16) char m[64]; };
struct Stk { int pool; ops::St s; };
struct Box { Slot a; Fib f; };
struct FI { int pool, cap, runner, steps; bool finish, ended, gone, started; };
static FI F[NFI]; static int nfi = 0;
struct Op { uint32_t k, a, b, c; };
struct Thr { Slot s[NS]; Fib f[NF]; Stk k[NSTK]; int doing; Op op[OPS]; int nop; };
static Thr T[thr::MAXTH]; static Box box[NBOX]; static Slot shared_slot; static int nthr, n_done = 0, mode = 0; static bool tracked = false;
struct Own { uintptr_t base; int pool; }; static Own own[4000]; static int nown = 0;

static void on_alloc( uintptr_t b, size_t) { if ( ! tracked) return; int p = T[thr::self()].doing; if ( p < 0) return; if ( nown < 4000) { own[nown].base = b; own[nown].pool = p; ++nown; ++P[p].blocks; } }
static void on_free( uintptr_t b) {
    if ( ! tracked) return;
    for ( int i = 0; i < nown; ++i) if ( own[i].base == b) {
        int p = own[i].pool; own[i] = own[--nown]; --P[p].blocks;
        if ( P[p].live > 0) fail( "pool-early-release", "memory of pool %d is released although %d copies of its allocator are alive", p, P[p].live);
        return; }
}
static int new_pool( Slot & s, size_t size, size_t next, size_t max) {
    int p = npool++; P[p].used = true; P[p].live = 1; P[p].inflight = 0; P[p].blocks = 0; P[p].size = size; P[p].owner = thr::self();
    T[thr::self()].doing = p; ops::pool_make( s.m, size, next, max); T[thr::self()].doing = -1; s.pool = p;
    if ( ! P[p].blocks) fail( "harness-pool", "no storage");
    return p;
}
static void drop_begin( int p) { if ( p < 0) return; --P[p].live; ++P[p].inflight; }
static void drop_end( int p) {
    if ( p < 0) return;
    --P[p].inflight;
    if ( P[p].live == 0 && P[p].inflight == 0) { if ( P[p].blocks) fail( "pool-release", "the last copy of the allocator of pool %d is gone but its memory was not released", p); sim::cov( "pool released by its last user"); }
}
static void drop( Slot & s) { int p = s.pool; drop_begin( p); ops::pool_drop( s.m); s.pool = -1; drop_end( p); }
static bool may_use( int p) { return mode == 0 || P[p].owner == thr::self(); }
static void plock( int p) { if ( mode == 0) thr::lock( p); }
static void punlock( int p) { if ( mode == 0) thr::unlock( p); }
static int keepers( Thr & t, int p) { int n = 0; for ( auto & s : t.s) if ( s.pool == p) ++n; return n; }
static bool needs( Thr & t, int p) { for ( auto & k : t.k) if ( k.pool == p) return true; return false; }
static bool can_drop( Thr & t, Slot & s) { return s.pool >= 0 && ( ! needs( t, s.pool) || keepers( t, s.pool) > 1); }

bool thr_fiber_step( int id, int what) {
    FI & f = F[id];
    if ( f.ended) fail( "resurrected", "fiber %d runs after it ended", id);
    if ( f.runner != thr::self() ) fail( "wrong-thread", "fiber %d runs on thread %d, but thread %d resumed it", id, thr::self(), f.runner);
    f.started = true; ++f.steps;
    if ( what < 0) return false;
    return f.finish;
}
void thr_fiber_gone( int id) { FI & f = F[id]; if ( f.gone) fail( "object-lifetime", "locals of fiber %d destroyed twice", id); if ( f.runner != thr::self() ) fail( "wrong-thread", "fiber %d unwinds on another thread", id); f.gone = true; }

static void make_fiber( Fib & x, Slot * pool, Slot * cap, bool cap_only, size_t size) {
    if ( nfi >= NFI) return;
    int id = nfi++; FI & f = F[id]; memset( & f, 0, sizeof( f) ); f.runner = thr::self(); f.pool = cap_only ? -1 : pool ? pool->pool : -1; f.cap = cap ? cap->pool : -1;
    if ( f.cap >= 0) ++P[f.cap].live; if ( f.pool >= 0) ++P[f.pool].live;
    Thr & t = T[thr::self()];
    if ( cap_only) {
        alignas( 16) char tmp[64]; ops::pool_copy( tmp, cap->m); ops::fiber_make_cap( x.m, tmp, size, id);
        int p = f.cap; ++P[p].inflight; ops::pool_drop( tmp); drop_end( p);
    } else {
        if ( f.pool >= 0) plock( f.pool);      // what a fiber makes the pool allocate is not attributed (thread records are allocated there too)
        ops::fiber_make( x.m, pool ? pool->m : nullptr, cap ? cap->m : nullptr, size, id);
        t.doing = -1; if ( f.pool >= 0) punlock( f.pool);
    }
    x.id = id; sim::cov( f.pool >= 0 ? "fiber on a pooled stack" : cap ? "fiber owning an allocator copy" : "fiber on a plain stack");
}
static void run_fiber( Fib & x, bool with) {
    FI & f = F[x.id]; f.runner = thr::self(); int s = f.steps;
    if ( with) ops::fiber_with( x.m, x.id); else ops::fiber_resume( x.m);
    if ( ! ops::fiber_alive( x.m) ) fail( "handle-wrong", "fiber %d returned an empty handle although it did not end", x.id);
    if ( f.steps != s + ( with && ! ( s == 0 && false) ? 2 : 1) ) fail( "wrong-context", "resuming fiber %d made %d steps", x.id, f.steps - s);
    sim::cov( with ? "function injected" : "fiber resumed");
}
static void end_fiber( Fib & x, bool dropit) {
    FI & f = F[x.id]; f.runner = thr::self(); int p = f.pool, c = f.cap;
    if ( p >= 0) plock( p);
    drop_begin( p); drop_begin( c);
    bool was = f.started;
    if ( ! dropit) { f.finish = true; ops::fiber_resume( x.m); if ( ops::fiber_alive( x.m) ) fail( "handle-wrong", "an ended fiber left a valid handle"); was = true; }
    ops::fiber_drop( x.m); f.ended = true;
    if ( was && ! f.gone) fail( "object-lifetime", "locals of an ended fiber were not destroyed");
    drop_end( c); drop_end( p);
    if ( p >= 0) punlock( p);
    x.id = -1; sim::cov( dropit ? "fiber dropped" : "fiber finished");
}
static uint64_t tv[5]; static bool tseen[5]; static rlim_t lim[4][2]; static volatile int curlim = 0; static long pgs = 4096, minsig = 2048; static unsigned lim_reported = 0; static volatile uint64_t lib_rl = 0;
extern "C" int __real_getrlimit( int, struct rlimit *);
extern "C" int __wrap_getrlimit( int r, struct rlimit * l) { thr::point(); if ( r == RLIMIT_STACK) { l->rlim_cur = lim[curlim][0]; l->rlim_max = lim[curlim][1]; lim_reported |= 1u << curlim; ++lib_rl; return 0; } return __real_getrlimit( static_cast< __rlimit_resource >( r), l); }
extern "C" int __wrap_getrlimit64( int r, struct rlimit * l) { return __wrap_getrlimit( r, l); }
extern "C" long __real_sysconf( int);
extern "C" long __wrap_sysconf( int n) { thr::point(); if ( n == _SC_PAGESIZE) return pgs;
#ifdef _SC_MINSIGSTKSZ
    if ( n == _SC_MINSIGSTKSZ) return minsig;
#endif
    return __real_sysconf( n); }
extern "C" int __wrap_getpagesize() { thr::point(); return static_cast< int >( pgs); }
extern "C" unsigned long __real_getauxval( unsigned long);
extern "C" unsigned long __wrap_getauxval( unsigned long n) { thr::point(); return n == 6 /* AT_PAGESZ */ ? static_cast< unsigned long >( pgs) : __real_getauxval( n); }
extern "C" int __real_prlimit( int, int, const struct rlimit *, struct rlimit *);
extern "C" int __wrap_prlimit( int pid, int r, const struct rlimit * n, struct rlimit * l) { return r == RLIMIT_STACK && l && ! n && ( pid == 0 || pid == getpid() ) ? __wrap_getrlimit( r, l) : __real_prlimit( pid, r, n, l); }
extern "C" int __wrap_prlimit64( int pid, int r, const struct rlimit * n, struct rlimit * l) { return __wrap_prlimit( pid, r, n, l); }
static void query( int w) {
    uint64_t v = ops::trait( w); static const char * n[5] = { "page_size", "is_unbounded", "maximum_size", "default_size", "minimum_size" };
    if ( tseen[w] && tv[w] != v) fail( "traits", "%s() is %llu for one caller and %llu for another", n[w], (unsigned long long) tv[w], (unsigned long long) v);
    tseen[w] = true; tv[w] = v; sim::cov( n[w]);
    if ( w == 0 && v != static_cast< uint64_t >( pgs) ) fail( "traits", "page_size() is %llu, the system's page size is %ld", (unsigned long long) v, pgs);
    if ( w == 2 || w == 1) {
        bool ok = false; for ( int i = 0; i < 4; ++i) if ( lim_reported >> i & 1) { if ( w == 2 ? lim[i][1] == v : ( lim[i][1] == RLIM_INFINITY) == ( v != 0) ) ok = true; }
        if ( ! ok) fail( "traits", "%s() is %llu, which is not what the system reported", n[w], (unsigned long long) v);
    }
    if ( tseen[1] && tseen[2] && ( tv[1] != 0) != ( tv[2] == ~0ull) ) fail( "traits", "is_unbounded() and maximum_size() contradict each other");
    if ( w == 3 && ( v < 16384 || v > ( 1u << 30) ) ) fail( "traits", "default size %llu", (unsigned long long) v);
    if ( w == 4 && ( v < 1024 || v > ( 1u << 30) ) ) fail( "traits", "minimum size %llu", (unsigned long long) v);
    if ( tseen[3] && tseen[4] && tv[4] > tv[3]) fail( "traits", "minimum size above default size");
}

static void body( int u) {
    Thr & t = T[u];
    for ( int i = 0; i < t.nop; ++i) {
        Op o = t.op[i]; Slot & a = t.s[o.a % NS], & b = t.s[o.b % NS]; Fib & f = t.f[o.c % NF]; Box & bx = box[o.b % NBOX]; int bm = 100 + static_cast< int >( o.b % NBOX);
        sim::note( "thread %d op %u %u %u %u", u, o.k, o.a, o.b, o.c);
        thr::point();
        uint64_t st = static_cast< uint64_t >( o.k); for ( int p = 0; p < npool && p < 6; ++p) st = st * 11 + static_cast< uint64_t >( P[p].live > 8 ? 8 : P[p].live) + ( P[p].inflight ? 100 : 0); sim::state( st);
        switch ( o.k) {
        case 1: if ( a.pool >= 0 && b.pool < 0) { ++P[a.pool].live; ops::pool_copy( b.m, a.m); b.pool = a.pool; sim::cov( "allocator copied"); } break;
        case 2: if ( can_drop( t, a) ) { drop( a); sim::cov( "allocator copy dropped"); } break;
        case 3: if ( a.pool >= 0 && b.pool < 0) { b.pool = a.pool; ops::pool_move( b.m, a.m); ops::pool_drop( a.m); a.pool = -1; sim::cov( "allocator moved"); } break;
        case 4: if ( a.pool >= 0 && b.pool >= 0 && ( a.pool == b.pool || can_drop( t, a) ) ) { int p = a.pool; ++P[b.pool].live; drop_begin( p); ops::pool_assign( a.m, b.m); a.pool = b.pool; drop_end( p); sim::cov( "allocator assigned"); } break;
        case 5: if ( a.pool >= 0 && b.pool >= 0 && & a != & b && ( can_drop( t, a) ) ) { int p = a.pool; drop_begin( p); a.pool = b.pool; b.pool = -1; ops::pool_massign( a.m, b.m); ops::pool_drop( b.m); drop_end( p); sim::cov( "allocator move-assigned"); } break;
        case 6: if ( shared_slot.pool >= 0 && b.pool < 0) { ++P[shared_slot.pool].live; ops::pool_copy( b.m, shared_slot.m); b.pool = shared_slot.pool; sim::cov( "shared allocator copied"); } break;
        case 7: thr::lock( bm); if ( bx.a.pool < 0 && can_drop( t, a) ) { bx.a.pool = a.pool; a.pool = -1; ops::pool_move( bx.a.m, a.m); ops::pool_drop( a.m); sim::cov( "allocator handed to another thread"); } thr::unlock( bm); break;
        case 8: thr::lock( bm); if ( bx.a.pool >= 0 && a.pool < 0) { a.pool = bx.a.pool; bx.a.pool = -1; ops::pool_move( a.m, bx.a.m); ops::pool_drop( bx.a.m); } thr::unlock( bm); break;
        case 9: if ( a.pool >= 0 && may_use( a.pool) ) { Stk & k = t.k[o.c % NSTK]; if ( k.pool >= 0) break; int p = a.pool; plock( p); t.doing = p; k.s = ops::pool_alloc( a.m); t.doing = -1; k.pool = p; punlock( p); if ( k.s.size < P[p].size) fail( "stack-description", "short stack"); ops::fill( k.s, u); sim::cov( "stack allocated"); } break;
        case 10: { Stk & k = t.k[o.c % NSTK]; if ( k.pool >= 0) for ( auto & s : t.s) if ( s.pool == k.pool) { int p = k.pool; ops::fill( k.s, 77); plock( p); ops::pool_free( s.m, k.s); punlock( p); k.pool = -1; sim::cov( "stack released"); break; } } break;
        case 11: if ( f.id < 0 && a.pool >= 0 && may_use( a.pool) && P[a.pool].size >= 8192) make_fiber( f, & a, nullptr, false, 0); break;
        case 12: if ( f.id < 0 && a.pool >= 0 && b.pool >= 0 && may_use( a.pool) && P[a.pool].size >= 8192) make_fiber( f, & a, & b, false, 0); break;
        case 13: if ( f.id < 0 && a.pool >= 0) make_fiber( f, nullptr, & a, true, 8192); break;
        case 14: if ( f.id < 0) make_fiber( f, nullptr, nullptr, false, 8192); break;
        case 15: if ( f.id >= 0) run_fiber( f, false); break;
        case 16: if ( f.id >= 0) run_fiber( f, true); break;
        case 17: if ( f.id >= 0) end_fiber( f, false); break;
        case 18: if ( f.id >= 0) end_fiber( f, true); break;
        case 19: if ( f.id >= 0 && ( F[f.id].pool < 0 || mode == 0) ) { thr::lock( bm); if ( bx.f.id < 0) { ops::fiber_move( bx.f.m, f.m); bx.f.id = f.id; f.id = -1; sim::cov( "fiber handed to another thread"); } thr::unlock( bm); } break;
        case 20: if ( f.id < 0) { thr::lock( bm); if ( bx.f.id >= 0) { ops::fiber_move( f.m, bx.f.m); f.id = bx.f.id; bx.f.id = -1; } thr::unlock( bm); } break;
        case 21: if ( a.pool >= 0 && b.pool >= 0 && & a != & b) { int p = a.pool; a.pool = b.pool; b.pool = p; ops::pool_swap( a.m, b.m); } break;
        case 22: if ( a.pool < 0 && npool < NP) new_pool( a, 9000 + 8 * ( o.c % 200), 1 + o.c % 3, o.c % 4); break;
        case 23: query( static_cast< int >( o.a % 5) ); break;
        case 24: curlim = static_cast< int >( o.c % 4); sim::cov( "resource limit changed"); break;
        default: break;
        }
    }
    sim::note( "thread %d ends", u);
    for ( auto & f : t.f) if ( f.id >= 0) end_fiber( f, f.id % 2 == 0);
    for ( auto & k : t.k) if ( k.pool >= 0) for ( auto & s : t.s) if ( s.pool == k.pool) { int p = k.pool; plock( p); ops::pool_free( s.m, k.s); punlock( p); k.pool = -1; break; }
    for ( int i = 0; i < NBOX; ++i) {
        thr::lock( 100 + i); Fib f; f.id = -1; Slot s; s.pool = -1;
        if ( box[i].f.id >= 0) { ops::fiber_move( f.m, box[i].f.m); f.id = box[i].f.id; box[i].f.id = -1; }
        if ( box[i].a.pool >= 0) { s.pool = box[i].a.pool; ops::pool_move( s.m, box[i].a.m); ops::pool_drop( box[i].a.m); box[i].a.pool = -1; }
        thr::unlock( 100 + i);
        if ( f.id >= 0) end_fiber( f, true);
        if ( s.pool >= 0) drop( s);
    }
    for ( auto & s : t.s) if ( s.pool >= 0) drop( s);
    if ( shared_slot.pool >= 0) { thr::lock( 200); bool last = ++n_done == nthr; thr::unlock( 200); if ( last) drop( shared_slot); }
}

void sim_zygote_init() {}
void sim_world() {
    env::alloc_hook = on_alloc; env::free_hook = on_free;
    env::activate( 0);
    nthr = 2 + static_cast< int >( choose( 3) ); mode = static_cast< int >( choose( 3) ) ? 1 : 0; if ( knob( "mode", -1) >= 0) mode = static_cast< int >( knob( "mode", 0) );
    static const rlim_t L[6][2] = { { 8u << 20, RLIM_INFINITY }, { 8u << 20, 64u << 20 }, { 1u << 20, 1u << 20 }, { RLIM_INFINITY, RLIM_INFINITY }, { 65536, 131072 }, { 4u << 20, 16u << 20 } };
    for ( auto & l : lim) { uint32_t k = choose( 6); l[0] = L[k][0]; l[1] = L[k][1]; }
#ifdef SIM_WINTRAITS
    for ( auto & l : lim) l[0] = l[1] = RLIM_INFINITY;     // Windows reports no limit
    lim_reported = 1;
#endif
   
    static const long PG[4] = { 4096, 16384, 65536, 8192 }; pgs = PG[choose( 4)]; static const long MS[3] = { 2048, 3632, 11952 }; minsig = MS[choose( 3)];
    for ( auto & t : T) { t.doing = -1; for ( auto & s : t.s) s.pool = -1; for ( auto & f : t.f) f.id = -1; for ( auto & k : t.k) k.pool = -1; }
    for ( auto & b : box) { b.a.pool = -1; b.f.id = -1; } shared_slot.pool = -1;
    long tr = knob( "traits", 0), fb = knob( "fibers", 10), nops = knob( "ops", 12);
    int np = 1 + static_cast< int >( choose( 2) ); bool sh = choose( 3) == 1;
    tracked = true;
    for ( int p = 0; p < np; ++p) {
        Slot m; m.pool = -1; static const size_t Z[4] = { 9000, 16384, 8192 + 8, 300 }; size_t z = Z[choose( 4)], nx = 1 + choose( 3), mx = choose( 3);
        if ( tr >= 100) break;
        new_pool( m, z, nx, mx); P[p].owner = static_cast< int >( choose( static_cast< uint32_t >( nthr) ) );
        for ( int u = 0; u < nthr; ++u) if ( u == P[p].owner || choose( 4) ) { ++P[p].live; ops::pool_copy( T[u].s[p].m, m.m); T[u].s[p].pool = p; }
        if ( sh && p == 0) { ++P[p].live; ops::pool_copy( shared_slot.m, m.m); shared_slot.pool = p; }
        drop( m);
    }
    for ( int u = 0; u < nthr; ++u) {
        T[u].nop = static_cast< int >( nops < OPS ? nops : OPS);
        for ( int i = 0; i < T[u].nop; ++i) {
            sim::block(); Op & o = T[u].op[i];
            uint32_t k = choose( 1000); o.a = choose( 60); o.b = choose( 60); o.c = choose( 60);
            if ( static_cast< long >( k) < 10) o.k = 0;
            else if ( k < 10 + static_cast< uint32_t >( tr) * 9) o.k = k % 7 == 0 ? 24 : 23;
            else if ( k < 10 + static_cast< uint32_t >( tr + fb) * 9) { static const uint32_t fk[14] = { 11, 12, 13, 14, 14, 15, 15, 15, 16, 17, 18, 19, 20, 20 }; o.k = fk[k % 14]; }
            else { static const uint32_t pk[20] = { 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 9, 10, 10, 21, 22, 2 }; o.k = pk[k % 20]; }
        }
    }
    thr::start( nthr, body);
    tracked = false; for ( auto & t : T) t.doing = -1;
    for ( int w = 0; w < 5; ++w) query( w);
    sim::cov( "instrumented accesses", thr::accesses() ); sim::cov( "thread switches", thr::switches() );
    sim::cov( mode ? "pool used by its owner only" : "pool used under a mutex");
    uint64_t h = 0; for ( int i = 0; i < nfi; ++i) h = h * 31 + static_cast< uint64_t >( F[i].steps); sim::ev( 1, h, thr::accesses() );
}
void sim_final_checks() { env::final_check(); }
