#include "env.hpp"
#include "core.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <csignal>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/syscall.h>

extern "C" {
void * __real_malloc( size_t); void __real_free( void *); void * __real_calloc( size_t, size_t);
void * __real_realloc( void *, size_t); int __real_posix_memalign( void **, size_t, size_t);
void * __real_mmap( void *, size_t, int, int, int, off_t); int __real_munmap( void *, size_t); int __real_mprotect( void *, size_t, int);
}

namespace env {
int lib = 0;
static bool on = false; static int policy = 0;
static int f_kinds = 0, f_nth = 0, f_err = 12, f_fired = 0; static bool f_sticky = false;
bool active() { return on; }
void arm( int kinds, int nth, int err) { f_kinds = kinds; f_nth = nth; f_err = err; f_fired = 0; f_sticky = false; }
void arm_sticky( int kinds, int nth) { arm( kinds, nth); f_sticky = true; }
int disarm() { f_kinds = 0; int r = f_fired; f_fired = 0; return r; }
bool armed() { return f_kinds != 0; }
bool should_fail( Fault f) {
    if ( ! (f_kinds & f) || lib <= 0) return false;
    if ( f_nth-- > 0) return false;
    if ( f_sticky) f_nth = 0; else f_kinds = 0;
    f_fired = f;
    const char * n = f == F_MALLOC ? "malloc" : f == F_NEW ? "operator new" : f == F_MMAP ? "mmap" : f == F_MPROTECT ? "mprotect" :
        f == F_GETCONTEXT ? "getcontext" : f == F_ALLOCATOR ? "stack allocator throws" : f == F_POSIX_MEMALIGN ? "posix_memalign" : "functor copy throws";
    sim::fault_fired( n);
    sim::note( "  fault: %s fails", n);
    return true;
}

// ---- signals at instruction boundaries ------------------------------------------
extern "C" { void sim_tf_on(); void sim_tf_off(); }
static volatile uint32_t sg_skip = 0, sg_n = 0; static volatile bool sg_on = false; static volatile uint64_t sg_count = 0;
uint64_t signals() { return sg_count; }
static void on_trap( int, siginfo_t *, void * u) {
    ucontext_t * uc = static_cast< ucontext_t * >( u);
    if ( sg_skip) { --sg_skip; return; }
    if ( ! sg_n) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    --sg_n; ++sg_count;
    // runs on a stack of its own, but treats the stack it interrupted as a handler there would: what is below the red zone is lost
    uintptr_t sp = static_cast< uintptr_t >( uc->uc_mcontext.gregs[REG_RSP]), hi = sp - 128, lo = hi - 4096, base; size_t size;
    if ( find_block( reinterpret_cast< void * >( sp), base, size) ) { if ( lo < base) lo = base; }
    else if ( page_prot( reinterpret_cast< void * >( sp - 1) ) >= 0) { while ( lo < hi && page_prot( reinterpret_cast< void * >( lo) ) != ( PROT_READ | PROT_WRITE) ) lo = ( lo / 4096 + 1) * 4096; }
    for ( uintptr_t q = lo; q < hi; ++q) *reinterpret_cast< volatile unsigned char * >( q) = static_cast< unsigned char >( 0xE1 + q);
    uint32_t mx = 0x1F80 | 0x2000; __asm__ volatile( "ldmxcsr %0" :: "m"( mx) );
    uint16_t cw = 0x0E7F; __asm__ volatile( "fldcw %0" :: "m"( cw) );
    __asm__ volatile( "pxor %%xmm0,%%xmm0\n pxor %%xmm7,%%xmm7\n pcmpeqd %%xmm15,%%xmm15\n" ::: "xmm0", "xmm7", "xmm15");
}
void step_on( uint32_t skip, uint32_t n) {
    static bool installed = false;
    if ( ! installed) { installed = true; struct sigaction sa; memset( & sa, 0, sizeof( sa) ); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction( SIGTRAP, & sa, nullptr); }
    static __thread char * alt = nullptr;
    if ( ! alt) { alt = static_cast< char * >( __real_mmap( nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) ); stack_t st; memset( & st, 0, sizeof( st) ); st.ss_sp = alt; st.ss_size = 1 << 16; sigaltstack( & st, nullptr); }
    sg_skip = skip; sg_n = n; sg_on = true; sim_tf_on();
}
void step_off() { if ( sg_on) { sg_on = false; sim_tf_off(); } }

// ---- heap -----------------------------------------------------------------------
static const uintptr_t A0 = 0x610000000000ull; static const size_t ASZ = size_t( 2) << 30;
enum Kind { K_MALLOC = 1, K_NEW = 2, K_NEWA = 3 };
static const char * kname[] = { "?", "malloc", "new", "new[]" };
struct Blk { uintptr_t user; size_t size; int kind; int live; size_t cap; };
enum { MAXBLK = 40000, RZ = 48 };
static Blk blk[MAXBLK]; static uint32_t nblk = 0; static uintptr_t bump = A0 + 4096; static size_t nlive = 0, blive = 0; static uint64_t cnt_m = 0, cnt_mm = 0;
static void (*hook)( uintptr_t, size_t, const char *) = nullptr;
void (*alloc_hook)( uintptr_t, size_t) = nullptr; void (*free_hook)( uintptr_t) = nullptr;
void release_hook( void (*f)( uintptr_t, size_t, const char *) ) { hook = f; }
struct Hdr { uint64_t magic; uint32_t idx; uint32_t pad; };
static const uint64_t MAGIC = 0xA110CA7EDB10C5EEull;

static bool in_arena( void const* p) { uintptr_t a = reinterpret_cast< uintptr_t >( p); return a >= A0 && a < A0 + ASZ; }
static bool too_big( size_t n) { return n > ASZ / 4; }
static void * arena_alloc( size_t n, int kind, size_t align = 16) {
    ++cnt_m;
    if ( policy == 1 && align <= 16) {
        for ( uint32_t i = nblk, lim = nblk > 400 ? nblk - 400 : 0; i-- > lim;)
            if ( ! blk[i].live && blk[i].cap == n && (blk[i].user & 15) == 0) {
                blk[i].live = 1; blk[i].kind = kind; blk[i].size = n; ++nlive; blive += n;
                memset( reinterpret_cast< void * >( blk[i].user), 0xA5, n);
                return reinterpret_cast< void * >( blk[i].user);
            }
    }
    if ( nblk >= MAXBLK) sim::fail( "harness-arena", "too many allocations");
    uintptr_t u = bump + RZ;
    u = (u + align - 1) & ~uintptr_t( align - 1);
    if ( align == 16) u += 16 * (cnt_m * 7 % 5);          // every 16 byte phase occurs
    if ( u + n + RZ >= A0 + ASZ) sim::fail( "harness-arena", "arena exhausted");
    bump = (u + n + RZ + 15) & ~uintptr_t( 15);
    Hdr * h = reinterpret_cast< Hdr * >( u - 16); h->magic = MAGIC; h->idx = nblk; h->pad = 0x5AFE5AFE;
    memset( reinterpret_cast< void * >( u), 0xA5, n);
    memset( reinterpret_cast< void * >( u - RZ), 0x5E, RZ - 16);
    memset( reinterpret_cast< void * >( u + n), 0x5E, RZ - 16);
    blk[nblk++] = Blk{ u, n, kind, 1, n }; ++nlive; blive += n;
    if ( alloc_hook) alloc_hook( u, n);
    return reinterpret_cast< void * >( u);
}
static bool all( uintptr_t p, size_t n, unsigned char v) {
    const unsigned char * c = reinterpret_cast< unsigned char * >( p);
    if ( n == 0) return true;
    return c[0] == v && ( n == 1 || 0 == memcmp( c, c + 1, n - 1) );
}
static void check_rz( Blk & b) {
    if ( ! all( b.user - RZ, RZ - 16, 0x5E) || ! all( b.user + b.size, RZ - 16, 0x5E) )
        sim::fail( "memory-overrun", "memory next to a heap block of %zu bytes was overwritten", b.size);
}
static void arena_free( void * p, int kind) {
    Hdr * h = reinterpret_cast< Hdr * >( static_cast< char * >( p) - 16);
    uintptr_t u = reinterpret_cast< uintptr_t >( p);
    if ( (u & 15) || h->magic != MAGIC || h->idx >= nblk || blk[h->idx].user != u) {
        for ( uint32_t i = 0; i < nblk; ++i) if ( blk[i].user == u) sim::fail( "memory-overrun", "header of a heap block of %zu bytes was overwritten", blk[i].size);
        sim::fail( "invalid-free", "%s of an address inside the heap that was never allocated", kname[kind]);
    }
    Blk & b = blk[h->idx];
    if ( ! b.live) sim::fail( "double-free", "block of %zu bytes released twice", b.size);
    if ( b.kind != kind) sim::fail( "mismatched-free", "block from %s released through %s", kname[b.kind], kname[kind]);
    check_rz( b);
    uintptr_t sp = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) );
    if ( sp >= b.user && sp < b.user + b.size) sim::fail( "stack-in-use", "the stack being executed on was released");
    if ( hook) hook( b.user, b.size, "free");
    if ( free_hook) free_hook( b.user);
    b.live = 0; --nlive; blive -= b.size;
    memset( p, 0xDF, b.size);
}
bool find_block( void const* p, uintptr_t & base, size_t & size) {
    uintptr_t a = reinterpret_cast< uintptr_t >( p);
    for ( uint32_t i = nblk; i-- > 0;) if ( blk[i].live && a >= blk[i].user && a <= blk[i].user + blk[i].size) { base = blk[i].user; size = blk[i].size; return true; }
    return false;
}
// the block (live or released) that contains an address; only meaningful when memory is never reused
bool block_state( uintptr_t a, uintptr_t & base, size_t & size, bool & live) {
    if ( a < A0 || a >= A0 + ASZ || ! nblk) return false;
    uint32_t lo = 0, hi = nblk;
    while ( hi - lo > 1) { uint32_t m = ( lo + hi) / 2; if ( blk[m].user <= a) lo = m; else hi = m; }
    if ( a < blk[lo].user || a >= blk[lo].user + blk[lo].cap) return false;
    base = blk[lo].user; size = blk[lo].size; live = blk[lo].live != 0; return true;
}
size_t live_blocks() { return nlive; }
size_t live_bytes() { return blive; }
uint64_t nmallocs() { return cnt_m; }
uint64_t nmmaps() { return cnt_mm; }

static size_t psz = 4096;
void set_page_size( size_t s) { psz = s; }
size_t page_size() { return psz; }
// ---- mappings -------------------------------------------------------------------
static const uintptr_t M0 = 0x630000000000ull; 
#ifdef SIM_SEGMENTED
enum { MP = 1 << 21 };   // 8 GB of address space: segments grow with the recursion
#else
enum { MP = 1 << 22 };   // 16 GB of address space: stacks may be larger than 4 GB
#endif
static unsigned char page[MP]; static uint32_t mbump = 4; static size_t npages = 0;
struct Fr { uint32_t first, n; }; static Fr freed[256]; static int nfreed = 0;
#ifndef SIM_SEGMENTED
size_t mapped_pages() { return npages; }
#endif
int page_prot( void const* p) {
    uintptr_t a = reinterpret_cast< uintptr_t >( p);
    if ( a < M0 || a >= M0 + uintptr_t( MP) * 4096) return -1;
    unsigned char c = page[(a - M0) / 4096];
    return c ? int( c) - 1 : -1;
}
static uintptr_t hbump = 0x200000000000ull;
void * huge_map( size_t n) {
    n = ( n + 0xfffff) & ~size_t( 0xfffff); void * p = __real_mmap( reinterpret_cast< void * >( hbump), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if ( p == MAP_FAILED) sim::fail( "harness-mmap", "no address space for a huge stack");
    hbump += n + 0x100000; return p;
}
void huge_unmap( void * p, size_t n) { __real_munmap( reinterpret_cast< void * >( reinterpret_cast< uintptr_t >( p) & ~uintptr_t( 0xfffff) ), ( n + 0xfffff) & ~size_t( 0xfffff) ); }
void activate( int pol) { policy = pol; on = true; }
void dump_live() { for ( uint32_t i = 0; i < nblk; ++i) if ( blk[i].live) sim::note( "  live block %u: %zu bytes from %s", i, blk[i].size, kname[blk[i].kind]); }
void final_check() {
    if ( sg_count) sim::fault_fired( "signal inside a library operation", sg_count);
    for ( uint32_t i = 0; i < nblk; ++i) {
        check_rz( blk[i]);
        if ( ! blk[i].live && policy == 0 && ! all( blk[i].user, blk[i].size, 0xDF) )
            sim::fail( "write-after-free", "released block of %zu bytes was written to", blk[i].size);
    }
    if ( nlive) {
        size_t s = 0; int k = 0;
        for ( uint32_t i = 0; i < nblk; ++i) if ( blk[i].live) { s = blk[i].size; k = blk[i].kind; break; }
        sim::fail( "leak", "%zu heap blocks never released (first: %zu bytes from %s)", nlive, s, kname[k]);
    }
    if ( npages) sim::fail( "leak", "%zu mapped pages never released", npages);
}
}
using namespace env;

extern "C" {
void * __wrap_malloc( size_t n) {
    if ( ! on) return __real_malloc( n);
    if ( should_fail( F_MALLOC) || too_big( n) ) { errno = ENOMEM; return nullptr; }
    return arena_alloc( n, K_MALLOC);
}
void __wrap_free( void * p) {
    if ( ! p) return;
    if ( in_arena( p) ) { arena_free( p, K_MALLOC); return; }
    if ( on) sim::fail( "invalid-free", "free of an address that the heap never handed out");
    __real_free( p);
}
void * __wrap_calloc( size_t a, size_t b) {
    if ( ! on) return __real_calloc( a, b);
    if ( should_fail( F_MALLOC) || ( b && a > ~size_t( 0) / b) || too_big( a * b) ) { errno = ENOMEM; return nullptr; }
    void * p = arena_alloc( a * b, K_MALLOC); memset( p, 0, a * b); return p;
}
void * __wrap_realloc( void * p, size_t n) {
    if ( ! on && ! in_arena( p) ) return __real_realloc( p, n);
    if ( ! p) return __wrap_malloc( n);
    uintptr_t b; size_t s; if ( ! find_block( p, b, s) ) sim::fail( "invalid-free", "realloc of an unknown address");
    void * q = __wrap_malloc( n); if ( ! q) return q;
    memcpy( q, p, s < n ? s : n); arena_free( p, K_MALLOC); return q;
}
int __wrap_posix_memalign( void ** r, size_t al, size_t n) {
    if ( ! on) return __real_posix_memalign( r, al, n);
    if ( should_fail( F_POSIX_MEMALIGN) || too_big( n) ) return ENOMEM;
    if ( al & ( al - 1) || al % sizeof( void *) ) return EINVAL;
    *r = arena_alloc( n, K_MALLOC, al < 16 ? 16 : al); return 0;
}
void * __wrap_aligned_alloc( size_t al, size_t n) { void * p = nullptr; if ( int e = __wrap_posix_memalign( & p, al < sizeof( void *) ? sizeof( void *) : al, n) ) { errno = e; return nullptr; } return p; }
void * __wrap_memalign( size_t al, size_t n) { return __wrap_aligned_alloc( al, n); }
void * __wrap_valloc( size_t n) { return __wrap_aligned_alloc( psz, n); }
void * __wrap_mmap64( void * a, size_t len, int prot, int flags, int fd, off_t off);
void * __wrap_mmap( void * a, size_t len, int prot, int flags, int fd, off_t off) {
    if ( ! on) return __real_mmap( a, len, prot, flags, fd, off);
    if ( a && ( flags & MAP_FIXED) ) {
        if ( should_fail( F_MMAP) ) { errno = ENOMEM; return MAP_FAILED; }
        if ( reinterpret_cast< uintptr_t >( a) % psz) { errno = EINVAL; return MAP_FAILED; }
        if ( in_arena( a) ) {      // replaces whole pages of the heap: their contents become zero
            size_t l = ( len + psz - 1) / psz * psz; uintptr_t u = reinterpret_cast< uintptr_t >( a);
            for ( uint32_t i = nblk; i-- > 0;) if ( blk[i].live && blk[i].user < u + l && u < blk[i].user + blk[i].size && ! ( blk[i].user <= u && blk[i].user + blk[i].size >= u + len) )
                sim::fail( "memory-overrun", "a fixed mapping replaced memory of another heap block");
            memset( a, 0, l); return a; }
        sim::fail( "invalid-mmap", "fixed mapping over foreign memory");
    }
    if ( len == 0) { errno = EINVAL; return MAP_FAILED; }
    if ( len > size_t( MP) * 2048 || ( len + psz) / 4096 + 16 + mbump > MP) { errno = ENOMEM; return MAP_FAILED; }
    if ( fd != -1 || ! (flags & MAP_ANONYMOUS) ) { errno = EBADF; return MAP_FAILED; }
    if ( should_fail( F_MMAP) ) { errno = ENOMEM; return MAP_FAILED; }
    ++cnt_mm;
    uint32_t k = static_cast< uint32_t >( psz / 4096), n = static_cast< uint32_t >( (len + psz - 1) / psz) * k, first = 0;
    for ( int i = nfreed; policy == 1 && i-- > 0;) if ( freed[i].n == n) { first = freed[i].first; freed[i] = freed[--nfreed]; break; }
    if ( ! first) { mbump = ( mbump + k - 1) / k * k; first = mbump; mbump += n + ( cnt_mm % 3 == 2 ? k : 0); }   // often adjacent
    if ( mbump >= MP) sim::fail( "harness-arena", "mapping space exhausted");
    void * p = __real_mmap( reinterpret_cast< void * >( M0 + uintptr_t( first) * 4096), size_t( n) * 4096, prot,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if ( p == MAP_FAILED) sim::fail( "harness-mmap", "real mmap failed: %d", errno);
    for ( uint32_t i = 0; i < n; ++i) page[first + i] = static_cast< unsigned char >( 1 + prot);
    npages += n;
    return p;
}
void * __wrap_mmap64( void * a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap( a, len, prot, flags, fd, off); }
__attribute__(( weak)) void sim_shadow_unmap( uintptr_t, size_t);      // shs_stub.cpp
int __wrap_munmap( void * p, size_t len) {
    uintptr_t a = reinterpret_cast< uintptr_t >( p);
    if ( a < M0 || a >= M0 + uintptr_t( MP) * 4096) {
        if ( ! on) return __real_munmap( p, len);
        if ( in_arena( p) ) sim::fail( "invalid-munmap", "munmap of heap memory");
        sim::fail( "invalid-munmap", "munmap of an address that was never mapped");
    }
    if ( (a % psz) || len == 0) { if ( on) sim::fail( "invalid-munmap", "munmap of a bad range"); errno = EINVAL; return -1; }
    uint32_t first = static_cast< uint32_t >( (a - M0) / 4096), n = static_cast< uint32_t >( (len + psz - 1) / psz * psz / 4096);
    for ( uint32_t i = 0; i < n; ++i) if ( ! page[first + i]) sim::fail( "invalid-munmap", "munmap covers a page that is not mapped (page %u of %u)", i, n);
    uintptr_t sp = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) );
    if ( sp >= a && sp < a + size_t( n) * 4096) sim::fail( "stack-in-use", "the stack being executed on was unmapped");
    if ( sim_shadow_unmap) sim_shadow_unmap( a, size_t( n) * 4096);
    if ( hook) hook( a, size_t( n) * 4096, "munmap");
    for ( uint32_t i = 0; i < n; ++i) page[first + i] = 0;
    npages -= n;
    if ( nfreed < 256) { freed[nfreed].first = first; freed[nfreed].n = n; ++nfreed; }
    return __real_munmap( p, size_t( n) * 4096);
}
int __wrap_mprotect( void * p, size_t len, int prot) {
    if ( ! on) return __real_mprotect( p, len, prot);
    if ( should_fail( F_MPROTECT) ) { errno = ENOMEM; return -1; }
    uintptr_t a = reinterpret_cast< uintptr_t >( p);
    if ( in_arena( p) ) sim::fail( "invalid-mprotect", "mprotect of heap memory");
    if ( a < M0 || a >= M0 + uintptr_t( MP) * 4096) { sim::fail( "invalid-mprotect", "mprotect of foreign memory"); }
    uint32_t first = static_cast< uint32_t >( (a - M0) / 4096), n = static_cast< uint32_t >( (len + psz - 1) / psz * psz / 4096);
    if ( a % psz) { errno = EINVAL; return -1; }
    for ( uint32_t i = 0; i < n; ++i) { if ( ! page[first + i]) sim::fail( "invalid-mprotect", "mprotect covers a page that is not mapped"); page[first + i] = static_cast< unsigned char >( 1 + prot); }
    return __real_mprotect( p, len, prot);
}
#ifdef SIM_SEGMENTED
}
// Segmented stacks: libgcc maps and unmaps the segments by plain system calls.  The segments are served from the simulated
// mappings and belong to the split-stack context that was current (by the stack in use) when they were mapped.
enum { MAXSEG = 4096 };
struct Segm { uintptr_t lo, hi; int owner, first; };
static Segm segm[MAXSEG]; static int nsegm = 0, seg_made = 0, seg_making = 0, seg_releasing = 0; static uint64_t seg_total = 0, seg_grown = 0;
static int seg_owner( uintptr_t a) { for ( int i = nsegm; i-- > 0;) if ( segm[i].lo <= a && a < segm[i].hi) return segm[i].owner; return -1; }
namespace env {
size_t mapped_pages() { size_t n = 0; for ( int i = 0; i < nsegm; ++i) if ( segm[i].first) n += ( segm[i].hi - segm[i].lo) / 4096; return n; }      // not what running contexts add
uint64_t segments_grown() { return seg_grown; }
int segments_of( uintptr_t a) { int o = seg_owner( a), n = 0; if ( o >= 0) for ( int i = 0; i < nsegm; ++i) n += segm[i].owner == o; return n; }
int segment_owner( uintptr_t a) { return seg_owner( a); }
int segments_owned( int o) { int n = 0; for ( int i = 0; i < nsegm; ++i) n += segm[i].owner == o; return n; } }
extern "C" {
long __real_syscall( long, long, long, long, long, long, long);
void * __real___splitstack_makecontext( size_t, void **, size_t *);
void * __wrap___splitstack_makecontext( size_t n, void ** c, size_t * z) { if ( on && should_fail( F_MMAP) ) return nullptr; seg_making = 1; void * p = __real___splitstack_makecontext( n, c, z); seg_making = 0; return p; }
void __real___splitstack_releasecontext( void **);
void __wrap___splitstack_releasecontext( void ** c) { seg_releasing = 1; __real___splitstack_releasecontext( c); seg_releasing = 0; }
long __wrap_syscall( long n, long a, long b, long c, long d, long e, long f) {
    int own = n != SYS_mmap || ! on ? -1 : seg_making ? seg_made++ : seg_owner( reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ) );
    if ( own >= 0) {       // segments of the main contexts stay with the system
        int k = f_kinds; f_kinds = 0;          // libgcc ends the process when it gets no segment
        void * p = __wrap_mmap( reinterpret_cast< void * >( a), static_cast< size_t >( b), static_cast< int >( c), static_cast< int >( d), static_cast< int >( e), f);
        f_kinds = k;
        if ( p == MAP_FAILED) return -1;
        if ( nsegm >= MAXSEG) sim::fail( "harness-arena", "segments");
        uintptr_t u = reinterpret_cast< uintptr_t >( p);
        segm[nsegm].owner = own; segm[nsegm].first = seg_making; if ( ! seg_making) ++seg_grown;
        segm[nsegm].lo = u; segm[nsegm].hi = u + static_cast< size_t >( b); ++nsegm; ++seg_total;
        return static_cast< long >( u);
    }
    if ( n == SYS_munmap) {
        uintptr_t u = static_cast< uintptr_t >( a);
        if ( u < M0 || u >= M0 + uintptr_t( MP) * 4096) return __real_syscall( n, a, b, c, d, e, f);
        auto h = hook; if ( ! seg_releasing) hook = nullptr;      // the hook may itself need stack: not while libgcc trims its list
        int r = __wrap_munmap( reinterpret_cast< void * >( a), static_cast< size_t >( b) );
        hook = h;
        for ( int i = 0; i < nsegm; ++i) if ( segm[i].lo == u) { segm[i] = segm[--nsegm]; break; }
        return r;
    }
    return __real_syscall( n, a, b, c, d, e, f);
}
#endif
int env_getcontext_fails() { if ( should_fail( F_GETCONTEXT) ) { errno = f_err; return 1; } return 0; }
}

static void * op_new( size_t n, int kind, bool nothrow, size_t align = 16) {
    if ( ! on) { void * p = align > 16 ? ( __real_posix_memalign( & p, align, n) ? nullptr : p) : __real_malloc( n ? n : 1); if ( ! p && ! nothrow) throw std::bad_alloc(); return p; }
    if ( should_fail( F_NEW) || too_big( n) ) { if ( nothrow) return nullptr; throw std::bad_alloc(); }
    return arena_alloc( n, kind, align);
}
static void op_delete( void * p, int kind) {
    if ( ! p) return;
    if ( in_arena( p) ) { arena_free( p, kind); return; }
    __real_free( p);       // allocated before the simulation started
}
void * operator new( size_t n) { return op_new( n, K_NEW, false); }
void * operator new[]( size_t n) { return op_new( n, K_NEWA, false); }
void * operator new( size_t n, std::nothrow_t const&) noexcept { return op_new( n, K_NEW, true); }
void * operator new[]( size_t n, std::nothrow_t const&) noexcept { return op_new( n, K_NEWA, true); }
void * operator new( size_t n, std::align_val_t a) { return op_new( n, K_NEW, false, static_cast< size_t >( a) ); }
void * operator new[]( size_t n, std::align_val_t a) { return op_new( n, K_NEWA, false, static_cast< size_t >( a) ); }
void operator delete( void * p) noexcept { op_delete( p, K_NEW); }
void operator delete[]( void * p) noexcept { op_delete( p, K_NEWA); }
void operator delete( void * p, size_t) noexcept { op_delete( p, K_NEW); }
void operator delete[]( void * p, size_t) noexcept { op_delete( p, K_NEWA); }
void operator delete( void * p, std::nothrow_t const&) noexcept { op_delete( p, K_NEW); }
void operator delete[]( void * p, std::nothrow_t const&) noexcept { op_delete( p, K_NEWA); }
void operator delete( void * p, std::align_val_t) noexcept { op_delete( p, K_NEW); }
void operator delete[]( void * p, std::align_val_t) noexcept { op_delete( p, K_NEWA); }
void operator delete( void * p, size_t, std::align_val_t) noexcept { op_delete( p, K_NEW); }
void operator delete[]( void * p, size_t, std::align_val_t) noexcept { op_delete( p, K_NEWA); }

// the heap itself is mapped once per worker, before the first run
__attribute__((constructor(101))) static void map_arena() {
    void * p = __real_mmap( reinterpret_cast< void * >( A0), ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    void * q = __real_mmap( reinterpret_cast< void * >( M0), size_t( MP) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if ( p == MAP_FAILED || q == MAP_FAILED) { fprintf( stderr, "cannot reserve simulated address space\n"); _Exit( 3); }
}
