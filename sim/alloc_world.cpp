// Allocator world: the library's stack allocators on a simulated heap, mapping and page-size, with injected failures,
// against a model of who owns which memory.
#include "core.hpp"
#include "env.hpp"
#include "vg.hpp"
#include <boost/context/fiber.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <csetjmp>
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <new>
#include <exception>
#include <sys/mman.h>
#include <unistd.h>
namespace ctx = boost::context;
using sim::choose; using sim::fail; using sim::knob;

static size_t sim_page = 4096;
// the traits the allocators are instantiated with: the library's own, or a user's whose pages, sizes and bounds differ from the system's
#ifdef SIM_OWN_TRAITS
static size_t own_mult = 2, own_default = 20001; static bool own_bounded = false;
struct Tr {
    static bool is_unbounded() { return ! own_bounded; }
    static size_t page_size() { return sim_page * own_mult; }
    static size_t default_size() { return own_default; }
    static size_t minimum_size() { return 64; }
    static size_t maximum_size() { return own_bounded ? ~size_t( 0) : 0; }
};
#else
typedef ctx::stack_traits Tr;
#endif
typedef ctx::basic_fixedsize_stack< Tr > FixedS; typedef ctx::basic_protected_fixedsize_stack< Tr > ProtS; typedef ctx::basic_pooled_fixedsize_stack< Tr > PoolS;
enum Kind { NONE, FIXED, PROT, POOL };
enum { NA = 10, MAXS = 60, NG = 400 };
union Any { FixedS f; ProtS p; PoolS q; Any() {} ~Any() {} };
struct Al { int kind, group; Any * a; };
static Al A[NA]; alignas( 64) static char abuf[NA][sizeof( Any)];
struct Group { int kind, copies, live, high; size_t size, next, max, last_block; uint64_t blocks; size_t base_blocks, base_bytes; bool faulted; };
static Group G[NG]; static int ng = 0;
struct S { ctx::stack_context c; int group; uint64_t seed; bool live; uintptr_t lo, guard; };
static S K[MAXS]; static uint64_t serial = 0;

#ifdef BOOST_CONTEXT_USE_MAP_STACK
# define pool_slack Tr::page_size()
#else
# define pool_slack 0
#endif
extern "C" long __real_sysconf( int);
extern "C" long __wrap_sysconf( int n) { if ( n == _SC_PAGESIZE) return static_cast< long >( sim_page); return __real_sysconf( n); }
extern "C" int __wrap_getpagesize() { return static_cast< int >( sim_page); }
extern "C" unsigned long __real_getauxval( unsigned long);
extern "C" unsigned long __wrap_getauxval( unsigned long n) { return n == 6 /* AT_PAGESZ */ ? static_cast< unsigned long >( sim_page) : __real_getauxval( n); }

static sigjmp_buf jb; static volatile int expect_segv = 0; static volatile uintptr_t seg_addr = 0;
static uintptr_t over_lo = 0, over_hi = 0; static int over_k = -1;
static void check_all( const char * w);
static void on_segv( int, siginfo_t * si, void *) {
    uintptr_t a = reinterpret_cast< uintptr_t >( si->si_addr);
    if ( expect_segv == 1) { seg_addr = a; expect_segv = 0; siglongjmp( jb, 1); }
    if ( expect_segv == 2) {
        expect_segv = 0;
        if ( a < over_lo || a >= over_hi) fail( "guard-page", "an overflowing context faulted outside the guard page of its stack");
        check_all( "after an overflow"); sim::cov( "overflow trapped"); sim::ev( 9); sim::finish_ok();
    }
    fail( "crash-Segmentation fault", "invalid memory access");
}
static bool touch( uintptr_t a, bool write) {
    volatile char * p = reinterpret_cast< volatile char * >( a);
    expect_segv = 1;
    if ( sigsetjmp( jb, 1) ) return false;
    char c = *p; if ( write) *p = c;
    expect_segv = 0; return true;
}

static void pattern( S & k, bool check, const char * w) {
    uintptr_t lo = k.lo, hi = reinterpret_cast< uintptr_t >( k.c.sp); size_t n = hi - lo;
    auto cell = [&]( size_t o) {
        unsigned char * p = reinterpret_cast< unsigned char * >( lo + o), v = static_cast< unsigned char >( ( k.seed + o * 131) >> 3 ^ k.seed ^ o);
        if ( check) { if ( *p != v) fail( "stack-corrupt", "%s: byte %zu of %zu of a live stack changed without its owner", w, o, n); } else *p = v;
    };
    size_t e = n < 128 ? n : 128;
    for ( size_t o = 0; o < e; ++o) { cell( o); cell( n - 1 - o); }
    size_t step = n >> 22 ? ( n >> 9) + 13 : 509;      // stacks of gigabytes are sampled
    for ( size_t o = 0; o < n; o += step) cell( o);
}
static void vg_all( const char * w) { for ( int i = 0; i < MAXS; ++i) if ( K[i].live) { uintptr_t sp = reinterpret_cast< uintptr_t >( K[i].c.sp); vg::handed_out( sp - K[i].c.size, K[i].lo, sp, w); } }
static void check_all( const char * w) { vg_all( w); for ( int i = 0; i < MAXS; ++i) if ( K[i].live) pattern( K[i], true, w); }

static void a_make( int i, int kind, int g, size_t size, size_t next, size_t max, bool dflt) {
    Any * m = reinterpret_cast< Any * >( abuf[i]);
    switch ( kind) {
    case FIXED: if ( dflt) new ( & m->f) FixedS(); else new ( & m->f) FixedS( size); break;
    case PROT: if ( dflt) new ( & m->p) ProtS(); else new ( & m->p) ProtS( size); break;
    default: if ( dflt) new ( & m->q) PoolS(); else if ( next == 0) new ( & m->q) PoolS( size); else new ( & m->q) PoolS( size, next, max); break;
    }
    A[i].kind = kind; A[i].group = g; A[i].a = m;
}
static void a_copy( int i, int j, bool move) {
    Any * m = reinterpret_cast< Any * >( abuf[i]);
    switch ( A[j].kind) {
    case FIXED: if ( move) new ( & m->f) FixedS( std::move( A[j].a->f) ); else new ( & m->f) FixedS( A[j].a->f); break;
    case PROT: if ( move) new ( & m->p) ProtS( std::move( A[j].a->p) ); else new ( & m->p) ProtS( A[j].a->p); break;
    default: if ( move) new ( & m->q) PoolS( std::move( A[j].a->q) ); else new ( & m->q) PoolS( A[j].a->q); break;
    }
    A[i].kind = A[j].kind; A[i].group = A[j].group; A[i].a = m;
}
static void a_kill( int i) {
    switch ( A[i].kind) { case FIXED: A[i].a->f.~basic_fixedsize_stack(); break; case PROT: A[i].a->p.~basic_protected_fixedsize_stack(); break; default: A[i].a->q.~basic_pooled_fixedsize_stack(); }
    A[i].kind = NONE; A[i].a = nullptr;
}
static ctx::stack_context a_alloc( int i) { return A[i].kind == FIXED ? A[i].a->f.allocate() : A[i].kind == PROT ? A[i].a->p.allocate() : A[i].a->q.allocate(); }
static void a_dealloc( int i, ctx::stack_context & c) { if ( A[i].kind == FIXED) A[i].a->f.deallocate( c); else if ( A[i].kind == PROT) A[i].a->p.deallocate( c); else A[i].a->q.deallocate( c); }

static int free_a() { for ( int i = 0; i < NA; ++i) if ( A[i].kind == NONE) return i; return -1; }
static int pick_a( bool (*ok)( int) = nullptr) { int c[NA], n = 0; for ( int i = 0; i < NA; ++i) if ( A[i].kind != NONE && ( ! ok || ok( i) ) ) c[n++] = i; uint32_t r = choose( 60); return n ? c[r * static_cast< uint32_t >( n) / 60] : -1; }
static int pick_k() { int c[MAXS], n = 0; for ( int i = 0; i < MAXS; ++i) if ( K[i].live) c[n++] = i; uint32_t r = choose( 60); return n ? c[r * static_cast< uint32_t >( n) / 60] : -1; }

static size_t some_size( int kind) {
    static const size_t z[16] = { 4096, 8192, 65536, 1, 4095, 4097, 12288 + 1, 40000, 65535, 65537, 100001, 5000, 32768, 16384 - 1, 16384 + 1, 300 };
    size_t s = z[choose( 16)]; uint32_t r = choose( 40), q = choose( 5), big = choose( 3);
    if ( r == 39 && kind != POOL) { sim::cov( "size near the end of the address space"); return ~size_t( 0) - ( q == 0 ? 0 : q == 1 ? 4094 : q == 2 ? 4095 : q == 3 ? 4096 : 9000); }
    if ( r == 38 && kind != POOL) return q == 0 && big == 2 ? ( size_t( 1) << 32) + 5000 : q == 1 && big == 2 ? ( size_t( 1) << 31) + 70000 : size_t( 1) << ( 34 + q * 5);
    if ( kind == POOL && s < 64) s = 64 + s;
    if ( kind == FIXED && s < 64) s = 64 + s;
    return s;
}
static bool op_fault( int kinds) {
    if ( static_cast< long >( choose( 1000) ) >= knob( "p_fault", 0) ) return false;
    uint32_t nth = choose( 3), st = choose( 2);
    if ( st) env::arm_sticky( kinds, static_cast< int >( nth) ); else env::arm( kinds, static_cast< int >( nth) );
    return true;
}
enum { ALLF = env::F_MALLOC | env::F_NEW | env::F_MMAP | env::F_MPROTECT | env::F_POSIX_MEMALIGN };

static void op_make() {
    int i = free_a(); int kind = 1 + static_cast< int >( choose( 3) ); { uint32_t b = choose( 4); if ( b && static_cast< long >( b) <= knob( "w_prot", 0) ) kind = PROT; if ( b && static_cast< long >( b) <= knob( "w_pool", 0) ) kind = POOL; } bool dflt = choose( 8) == 1; size_t size = some_size( kind);
    static const size_t nx[8] = { 0, 1, 2, 3, 4, 7, 16, 5 }, mx[6] = { 0, 1, 2, 5, 16, 9 }; size_t next = nx[choose( 8)], max = mx[choose( 6)]; if ( next == 0) max = 0;
    if ( i < 0 || ng >= NG) return;
    if ( kind == POOL && next == 0 && size > 20000) size = 20000; if ( kind == POOL && dflt) { next = 0; max = 0; sim::cov( "pool with default arguments"); }
    int g = ng++; Group & q = G[g]; memset( & q, 0, sizeof( q) ); q.kind = kind; q.size = dflt ? Tr::default_size() : size; q.next = next ? next : 32; q.max = max; q.base_blocks = env::live_blocks(); q.base_bytes = env::live_bytes();
    bool armed = op_fault( ALLF);
    bool threw = false;
    try { env::lib = 1; a_make( i, kind, g, size, next, max, dflt); env::lib = 0; q.copies = 1; }
    catch ( std::bad_alloc const&) { threw = true; env::lib = 0; }
    int fired = env::disarm();
    if ( threw) {
        if ( ! armed || ! fired) fail( "exception-unexpected", "constructing an allocator threw without a failing resource");
        if ( env::live_blocks() != q.base_blocks) fail( "leak", "a failed allocator construction leaked memory");
        A[i].kind = NONE; sim::cov( "allocator construction refused"); sim::ev( 1, 99); return;
    }
    sim::cov( kind == FIXED ? "fixedsize allocator" : kind == PROT ? "protected allocator" : "pooled allocator"); sim::ev( 1, static_cast< uint64_t >( kind), q.size, next * 100 + max);
}
static bool killable( int i) { Group & q = G[A[i].group]; return q.copies > 1 || q.live == 0; }
static void drop_copy( int i) {
    Group & q = G[A[i].group]; size_t lb = env::live_blocks(); bool pool = q.kind == POOL;
    env::lib = 1; a_kill( i); env::lib = 0;
    if ( --q.copies == 0) {
        if ( pool && env::live_blocks() != lb - q.blocks - 1) fail( "pool-release", "the last copy of a pooled allocator is gone but its memory was not released completely");
        sim::cov( pool ? "pool released with its last copy" : "allocator destroyed");
    } else if ( env::live_blocks() != lb) fail( "pool-release", "dropping one of several copies of an allocator released memory");
}
static void op_copy() {
    int j = pick_a(), i = free_a(); bool move = choose( 4) == 1;
    if ( j < 0 || i < 0) return;
    size_t lb = env::live_blocks();
    if ( move && A[j].kind == POOL) {       // a moved-from pooled allocator is only destroyed afterwards
        env::lib = 1; a_copy( i, j, true); a_kill( j); env::lib = 0; sim::cov( "pooled allocator moved");
    } else { env::lib = 1; a_copy( i, j, move); env::lib = 0; ++G[A[i].group].copies; sim::cov( "allocator copied"); }
    if ( env::live_blocks() != lb) fail( "pool-release", "copying an allocator changed the memory it holds");
    sim::ev( 2, static_cast< uint64_t >( A[i].group) );
}
static void op_assign() {
    int j = pick_a(), i = pick_a( killable);
    if ( i < 0 || j < 0 || A[i].kind != A[j].kind) return;
    Group & old = G[A[i].group]; if ( i != j && old.copies == 1 && old.live) return;
    size_t lb = env::live_blocks(), back = 0; bool last = A[i].group != A[j].group && old.copies == 1; if ( last && old.kind == POOL) back = old.blocks + 1;
    env::lib = 1;
    switch ( A[i].kind) { case FIXED: A[i].a->f = A[j].a->f; break; case PROT: A[i].a->p = A[j].a->p; break; default: A[i].a->q = A[j].a->q; }
    env::lib = 0;
    if ( env::live_blocks() != lb - back) fail( "pool-release", "assigning an allocator released the wrong amount of memory");
    --old.copies; ++G[A[j].group].copies; A[i].group = A[j].group; sim::cov( "allocator assigned"); sim::ev( 3);
}
static void op_kill() { int i = pick_a( killable); if ( i < 0) return; sim::ev( 4, static_cast< uint64_t >( A[i].group) ); drop_copy( i); }

static void op_alloc() {
    int i = pick_a(); bool probe = choose( 6) == 1;
    int k = -1; for ( int j = 0; j < MAXS; ++j) if ( ! K[j].live) { k = j; break; }
    if ( i < 0 || k < 0) return;
    Group & q = G[A[i].group]; S & s = K[k];
    size_t lb = env::live_blocks(), by = env::live_bytes(), mp = env::mapped_pages(); uint64_t nm = env::nmallocs();
    bool armed = op_fault( ALLF), threw = false; s.c = ctx::stack_context();
    try { env::lib = 1; s.c = a_alloc( i); env::lib = 0; } catch ( std::bad_alloc const&) { threw = true; env::lib = 0; }
    int fired = env::disarm(); if ( fired) q.faulted = true;
    size_t nlb = env::live_blocks() - lb, nby = env::live_bytes() - by;
    sim::sched( static_cast< uint32_t >( q.kind), static_cast< uint32_t >( q.live), 1 + ( threw ? 1 : 0) );
    if ( threw) {
        bool huge = q.size > ( size_t( 1) << 28);
        if ( ! ( armed && fired) && ! huge) fail( "exception-unexpected", "allocating a stack of %zu bytes failed without a failing resource", q.size);
        if ( env::live_blocks() != lb || env::live_bytes() != by || env::mapped_pages() != mp) fail( "leak", "a failed stack allocation leaked memory");
        if ( huge && ! fired) sim::cov( "impossible size refused"); else sim::cov( "stack allocation refused");
        sim::ev( 5, 99); return;
    }
    uintptr_t sp = reinterpret_cast< uintptr_t >( s.c.sp), base = sp - s.c.size;
    if ( ! s.c.sp || base > sp) fail( "stack-description", "the stack description is not a valid range");
    s.lo = base; s.guard = 0; s.group = A[i].group; s.seed = ++serial * 0x9E3779B97F4A7C15ull;
    if ( q.kind == PROT) {
        size_t pg = Tr::page_size() > sim_page ? Tr::page_size() : sim_page; uintptr_t p = sp;
        if ( s.c.size < q.size || env::mapped_pages() == mp) fail( "guard-page", "a protected stack of %zu bytes was handed out for a request of %zu bytes", s.c.size, q.size);
        while ( p > base && env::page_prot( reinterpret_cast< void * >( p - 1) ) == ( PROT_READ | PROT_WRITE) ) p -= 4096;
        if ( sp - p < q.size) fail( "guard-page", "protected stack has only %zu usable bytes instead of %zu", sp - p, q.size);
        for ( uintptr_t g = p - pg; g < p; g += 4096) if ( env::page_prot( reinterpret_cast< void * >( g) ) != PROT_NONE) fail( "guard-page", "the page directly below a protected stack is accessible");
        if ( p > base && p - pg < base) fail( "guard-page", "the guard page reaches below the described memory");
        s.lo = p; s.guard = p - pg;
        if ( ( env::mapped_pages() - mp) * 4096 > sp - p + 2 * pg + 65536) fail( "stack-description", "far more memory mapped than described");
        if ( probe) { for ( int w = 0; w < 2; ++w) if ( touch( p - 1, w) || touch( p - pg, w) || touch( p - pg + 17, w) ) fail( "guard-page", "the guard page can be %s", w ? "written" : "read"); sim::cov( "guard page probed"); }
    } else {
        if ( s.c.size < q.size) fail( "stack-description", "stack of %zu bytes handed out, %zu configured", s.c.size, q.size);
        if ( env::page_prot( s.c.sp) >= 0 || env::page_prot( reinterpret_cast< void * >( base) ) >= 0) {
            for ( uintptr_t p = base; p < sp; p += 4096) if ( env::page_prot( reinterpret_cast< void * >( p) ) != ( PROT_READ | PROT_WRITE) ) fail( "stack-description", "described stack memory is not accessible");
            if ( env::page_prot( reinterpret_cast< void * >( sp - 1) ) != ( PROT_READ | PROT_WRITE) ) fail( "stack-description", "described stack memory is not accessible");
        } else {
            uintptr_t b; size_t z; if ( ! env::find_block( reinterpret_cast< void * >( base), b, z) || base < b || sp > b + z) fail( "stack-description", "described stack memory is not inside memory the allocator owns");
        }
    }
    for ( int j = 0; j < MAXS; ++j) if ( K[j].live) { uintptr_t jl = K[j].guard ? K[j].guard : K[j].lo, jh = reinterpret_cast< uintptr_t >( K[j].c.sp), l = s.guard ? s.guard : s.lo; if ( l < jh && jl < sp) fail( "stack-overlap", "two live stacks overlap"); }
    if ( q.kind == POOL) {
        if ( nlb > 1) fail( "pool-growth", "one allocation made the pool request %zu blocks", nlb);
        if ( nlb == 1) {
            size_t part = ( q.size + 7) & ~size_t( 7), chunks = nby > 16 ? ( nby - 16) / part : 0;
            if ( q.live < q.high) fail( "pool-growth", "the pool requested new memory although released stacks are available");
            if ( chunks < 1) fail( "pool-growth", "pool block too small");
            size_t cap = q.max ? ( q.max > q.next ? q.max : q.next) : ( q.last_block ? q.last_block * 2 : q.next);
            if ( nby > ( cap + 1) * part + 64 + pool_slack) fail( "pool-growth", "the pool requested a block of %zu stacks, more than its limit %zu allows", chunks, cap);
            if ( q.blocks == 0 && ! q.faulted && chunks < q.next) fail( "pool-growth", "the first block of the pool holds %zu stacks instead of %zu", chunks, q.next);
            q.last_block = chunks; ++q.blocks; sim::cov( "pool grew");
        } else { if ( nm != env::nmallocs() ) sim::cov( "pool retried"); sim::cov( "pool reused memory"); }
    } else if ( q.kind == FIXED) {
        if ( nlb + ( env::mapped_pages() - mp) == 0) fail( "stack-description", "a stack was handed out without memory");
        if ( nlb > 1) fail( "leak", "more than one block allocated for a stack");
    }
    vg::handed_out( base, s.lo, sp, "after allocation");
    s.live = true; if ( ++q.live > q.high) q.high = q.live;
    pattern( s, false, ""); pattern( s, true, "after writing"); sim::step();
    sim::ev( 5, static_cast< uint64_t >( q.kind), q.size, static_cast< uint64_t >( q.live) ); sim::cov( q.kind == FIXED ? "fixedsize stack" : q.kind == PROT ? "protected stack" : "pooled stack");
    uint64_t st = 0; for ( int j = 0; j < ng; ++j) if ( G[j].copies) st = st * 31 + static_cast< uint64_t >( G[j].kind * 64 + G[j].live * 8 + ( G[j].copies > 7 ? 7 : G[j].copies) ); sim::state( st);
}
static int dealloc_group; static bool same_group( int i) { return A[i].group == dealloc_group; }
static void give_back( int k) {
    S & s = K[k]; Group & q = G[s.group]; dealloc_group = s.group; int i = pick_a( same_group);
    if ( i < 0) fail( "harness-dealloc", "no allocator");
    pattern( s, true, "before release");
    size_t lb = env::live_blocks(), mp = env::mapped_pages(), by = env::live_bytes();
    ctx::stack_context c = s.c; s.live = false; --q.live;
    uintptr_t vb = reinterpret_cast< uintptr_t >( c.sp) - c.size, vs = reinterpret_cast< uintptr_t >( c.sp);
    vg::handed_out( vb, s.lo, vs, "before release");
    env::lib = 1; a_dealloc( i, c); env::lib = 0; sim::step();
    vg::given_back( vb, vs, "after release");
    sim::sched( static_cast< uint32_t >( q.kind), static_cast< uint32_t >( q.live), 5);
    if ( q.kind == POOL) { if ( env::live_blocks() != lb || env::live_bytes() != by || env::mapped_pages() != mp) fail( "stack-release", "releasing a pooled stack changed the memory of the pool"); }
    else {
        if ( q.kind == PROT) { if ( env::live_blocks() != lb) fail( "stack-release", "releasing a protected stack changed the heap"); 
            for ( uintptr_t p = s.guard; p < reinterpret_cast< uintptr_t >( s.c.sp); p += 4096) if ( env::page_prot( reinterpret_cast< void * >( p) ) != -1) fail( "stack-release", "part of a released protected stack is still mapped"); }
        else {
            if ( env::live_blocks() == lb && env::mapped_pages() == mp) fail( "stack-release", "releasing a stack released no memory");
            uintptr_t b; size_t z; if ( env::page_prot( reinterpret_cast< void * >( s.lo) ) != -1 || ( env::find_block( reinterpret_cast< void * >( s.lo), b, z) && b < reinterpret_cast< uintptr_t >( s.c.sp) && s.lo < b + z) ) fail( "stack-release", "memory of a released stack was not released");
        }
    }
    sim::ev( 6, static_cast< uint64_t >( q.kind), static_cast< uint64_t >( q.live) );
}
static void op_free() { int k = pick_k(); if ( k < 0) return; sim::cov( "stack released"); give_back( k); if ( choose( 8) == 1) check_all( "after a release"); }

// a context on a protected stack that recurses without end must be stopped by the guard page
static int __attribute__((noinline)) forever( int n) { volatile char b[600]; b[0] = static_cast< char >( n); b[599] = b[0]; int r = forever( n + 1); return r + b[0] + b[599]; }
struct Forward { S * s; ctx::stack_context allocate() { return s->c; } void deallocate( ctx::stack_context &) noexcept {} };
static void op_overflow() {
    int k = pick_k(); if ( k < 0 || ! K[k].guard || static_cast< long >( choose( 100) ) >= knob( "p_overflow", 20) ) return;
    S & s = K[k]; if ( reinterpret_cast< uintptr_t >( s.c.sp) - s.lo < 16384) return;
    pattern( s, true, "before overflow"); s.live = false; over_lo = s.guard; over_hi = s.lo; over_k = k;
    Forward f = { & s };
    ctx::fiber x( std::allocator_arg, f, []( ctx::fiber && c) { expect_segv = 2; forever( 0); return std::move( c); });
    x = std::move( x).resume();
    fail( "guard-page", "a context recursed beyond its protected stack without being stopped");
}
// a fiber that owns a copy of the allocator
static void op_fiber() {
    int i = pick_a(); uint32_t mode = choose( 3); if ( i < 0) return;
    Group & q = G[A[i].group]; if ( q.size < 16384 || q.size > ( size_t( 1) << 28) ) return;
    int before = q.live; size_t lb = env::live_blocks(), mp = env::mapped_pages(), by = env::live_bytes();
    bool armed = op_fault( ALLF), threw = false; int stage = 0; volatile int * st = & stage;
    try {
        env::lib = 1;
        auto fn = [st]( ctx::fiber && c) { env::HarnessScope h; *st = *st + 1; c = std::move( c).resume(); *st = *st + 1; return std::move( c); };
        ctx::fiber x; if ( A[i].kind == FIXED) x = ctx::fiber( std::allocator_arg, A[i].a->f, fn); else if ( A[i].kind == PROT) x = ctx::fiber( std::allocator_arg, A[i].a->p, fn); else x = ctx::fiber( std::allocator_arg, A[i].a->q, fn);
        int fired = env::disarm(); env::lib = 0; if ( fired) q.faulted = true;
        check_all( "after creating a fiber");
        if ( mode) x = std::move( x).resume();
        if ( mode == 2) x = std::move( x).resume();
    } catch ( std::bad_alloc const&) { threw = true; env::lib = 0; }
    int fired = env::disarm(); if ( fired) q.faulted = true;
    if ( threw && ( ! armed || ! fired) ) fail( "exception-unexpected", "creating a fiber failed without a failing resource");
    if ( ! threw && stage != static_cast< int >( mode) ) fail( "wrong-context", "fiber ran the wrong number of times");
    if ( q.kind == POOL) { if ( env::live_blocks() > lb) { size_t nby = env::live_bytes() - by; size_t part = ( q.size + 7) & ~size_t( 7); ++q.blocks; q.last_block = ( nby - 16) / part; if ( env::live_blocks() != lb + 1) fail( "leak", "a fiber leaked memory"); if ( q.live < q.high) fail( "pool-growth", "the pool requested new memory although released stacks are available"); } if ( ! threw && q.live + 1 > q.high) q.high = q.live + 1; }
    else if ( env::live_blocks() != lb || env::mapped_pages() != mp) fail( "leak", "a fiber leaked memory");
    if ( q.live != before) fail( "harness-fiber", "count");
    sim::cov( threw ? "fiber creation refused" : "fiber on a stack allocator"); sim::ev( 7, mode, threw);
}

// long histories on one allocator: very many copies, very many stacks one after the other
static void op_many() {
    static const uint32_t ns[6] = { 3, 40, 130, 260, 600, 66000 };
    int i = pick_a(); uint32_t a = choose( 6), b = choose( 8), depth = 1 + choose( 3); if ( a == 5 && b != 1) a = 3;
    if ( i < 0) return;
    Group & q = G[A[i].group]; size_t lb = env::live_blocks(), mp = env::mapped_pages(), by = env::live_bytes(); uint32_t n = ns[a];
    if ( b & 1) {
        static PoolS * c[66000]; static char mem[66000][sizeof( PoolS)];
        if ( q.kind != POOL) return;
        env::lib = 1;
        for ( uint32_t k = 0; k < n; ++k) c[k] = new ( mem[k]) PoolS( k ? *c[k / 2] : A[i].a->q);
        env::lib = 0; if ( env::live_blocks() != lb) fail( "pool-release", "copying an allocator %u times changed the memory it holds", n);
        env::lib = 1;
        for ( uint32_t k = 0; k < n; ++k) c[b & 2 ? k : n - 1 - k]->~basic_pooled_fixedsize_stack();
        env::lib = 0; if ( env::live_blocks() != lb || env::live_bytes() != by) fail( "pool-release", "dropping %u of several copies of a pooled allocator released memory", n);
        sim::cov( n > 65535 ? "more than 65535 copies of a pool" : n > 255 ? "more than 255 copies of a pool" : "many copies of a pool"); sim::ev( 8, n); return;
    }
    if ( q.size > 200000 || q.kind == POOL) { if ( q.size > 200000) return; }
    if ( q.kind == FIXED && n > 300) n = 300; if ( q.kind == FIXED && q.size > 20000 && n > 40) n = 40;
    if ( n > 5000) n = 5000;
    ctx::stack_context c[3]; size_t first_lb = 0, first_mp = 0;
    for ( uint32_t k = 0; k < n; ++k) {
        env::lib = 1; for ( uint32_t d = 0; d < depth; ++d) { c[d] = a_alloc( i); static_cast< char * >( c[d].sp)[-1] = 1; } for ( uint32_t d = 0; d < depth; ++d) a_dealloc( i, c[d]); env::lib = 0; sim::step();
        if ( k == 0) { first_lb = env::live_blocks(); first_mp = env::mapped_pages(); }
        else if ( env::live_blocks() != first_lb || env::mapped_pages() != first_mp) fail( "leak", "memory is not recovered: the allocator holds more of it after the same %u stacks were used for the %u. time", depth, k + 1);
    }
    if ( q.kind != POOL) { if ( env::live_blocks() != lb || env::mapped_pages() != mp || env::live_bytes() != by) fail( "leak", "released stacks were not recovered"); }
    else if ( env::live_blocks() > lb) { q.blocks += env::live_blocks() - lb; { size_t part = ( q.size + 7) & ~size_t( 7), sum = ( env::live_bytes() - by) / part; if ( sum > q.last_block) q.last_block = sum; } q.faulted = true; if ( q.live + static_cast< int >( depth) > q.high) q.high = q.live + static_cast< int >( depth); }
    else if ( q.live + static_cast< int >( depth) > q.high) q.high = q.live + static_cast< int >( depth);
    sim::cov( "many stacks one after the other"); sim::ev( 9, n, depth);
}
void sim_zygote_init() {}
void sim_world() {
    env::activate( static_cast< int >( choose( 2) ) );
    static const size_t pgs[4] = { 4096, 4096, 16384, 65536 }; sim_page = pgs[choose( 4)]; env::set_page_size( sim_page);
    if ( sim_page != 4096) sim::cov( "large pages");
#ifdef SIM_OWN_TRAITS
    static const size_t ds[6] = { 20001, 65536, 3000, 100000, 8192, 33333 }; own_mult = size_t( 1) << choose( 3); own_default = ds[choose( 6)]; own_bounded = choose( 2); sim::cov( own_mult > 1 ? "traits with larger pages than the system's" : "own traits");
#endif
    alignas( 16) static char alt[65536]; stack_t ss; memset( & ss, 0, sizeof( ss) ); ss.ss_sp = alt; ss.ss_size = sizeof( alt); sigaltstack( & ss, nullptr);
    struct sigaction sa; memset( & sa, 0, sizeof( sa) ); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction( SIGSEGV, & sa, nullptr); sigaction( SIGBUS, & sa, nullptr);
    long budget = 10 + static_cast< long >( choose( static_cast< uint32_t >( knob( "steps", 100) ) ) );
    uint32_t bias = choose( 3);
    while ( budget-- > 0) {
        sim::block();
        uint32_t r = choose( 64); if ( bias == 1 && r >= 40 && r < 52) r = 20; if ( bias == 2 && r >= 14 && r < 30) r = 44;
        sim::note( "op %u", r);
        if ( r == 0) {} else if ( r < 10) op_make(); else if ( r < 14) op_copy(); else if ( r < 38) op_alloc(); else if ( r < 54) op_free(); else if ( r < 57) op_kill(); else if ( r < 58) op_assign(); else if ( r < 59) op_overflow(); else if ( r == 59) op_many(); else op_fiber();
    }
    sim::block();
    for ( int k = 0; k < MAXS; ++k) if ( K[k].live) give_back( k);
    for ( int i = 0; i < NA; ++i) if ( A[i].kind != NONE) drop_copy( i);
}
void sim_final_checks() { env::final_check(); if ( vg::count() ) fail( "valgrind", "%d registered stacks remain although every stack was released", vg::count() ); }
