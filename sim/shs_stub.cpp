// Shadow stacks: the system call that maps one, and the instructions that switch between them.  Calls and returns are not
// followed here (the stand-in processor of isa_world.cpp does that), so the pointer of a shadow stack stays where it begins.
#include "core.hpp"
#include "env.hpp"
#include <cerrno>
#include <cstring>
#include <sys/mman.h>
using sim::fail;
extern "C" { long __real_syscall( long, long, long, long, long, long, long); void * __wrap_mmap( void *, size_t, int, int, int, off_t); }
namespace {
struct R { uintptr_t lo, hi; };
enum { MAXR = 8192, MAXT = 64 };
R r[MAXR]; int nr = 0; uint64_t n_maps = 0;
alignas( 16) uint64_t own[MAXT][16]; uintptr_t of_thread[MAXT]; int nt = 0;
thread_local int me = -1;
uintptr_t & ssp() { if ( me < 0) { if ( nt >= MAXT) fail( "harness-shs", "threads"); me = nt++; of_thread[me] = reinterpret_cast< uintptr_t >( & own[me][8]); } return of_thread[me]; }
uint64_t & at( uintptr_t a, const char * w) {
    bool ok = a >= reinterpret_cast< uintptr_t >( own) && a < reinterpret_cast< uintptr_t >( own + nt);
    for ( int i = 0; i < nr; ++i) ok |= a >= r[i].lo && a < r[i].hi;
    if ( ! ok || a % 8) fail( "shadow-stack", "%s: %#llx is not memory of a shadow stack", w, static_cast< unsigned long long >( a) );
    return *reinterpret_cast< uint64_t * >( a);
}
}
extern "C" {
uint64_t sim_rdssp() { return ssp(); }
void sim_rstorssp( uintptr_t a) {
    uint64_t & t = at( a, "a shadow stack is entered"); if ( t != ( ( a + 8) | 1) ) fail( "shadow-stack", "a shadow stack is entered that has no token there: it is in use or was left in another way");
    t = ssp() | 3; ssp() = a; sim::cov( "shadow stack entered");
}
void sim_saveprevssp() {
    uint64_t t = at( ssp(), "the previous shadow stack is saved"); if ( ( t & 3) != 3) fail( "shadow-stack", "there is no previous shadow stack to save");
    ssp() += 8; uintptr_t old = t & ~uint64_t( 3); at( old - 8, "the previous shadow stack is saved") = old | 1;
}
long __wrap_syscall( long n, long a, long b, long c, long d, long e, long f) {
    if ( n != 451) return __real_syscall( n, a, b, c, d, e, f);
    size_t z = static_cast< size_t >( b);
    if ( a || ( c & ~1l) ) fail( "shadow-stack", "a shadow stack is mapped with arguments %#lx, %#lx", a, c);
    if ( ! c) fail( "shadow-stack", "a shadow stack without a token is mapped");
    if ( z < 8) { errno = ENOSPC; return -1; }
    if ( z % 8) { errno = EINVAL; return -1; }
    void * p = __wrap_mmap( nullptr, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ( p == MAP_FAILED) return -1;
    if ( nr >= MAXR) fail( "shadow-stack", "thousands of shadow stacks are mapped at the same time");
    r[nr].lo = reinterpret_cast< uintptr_t >( p); r[nr].hi = ( r[nr].lo + z + 4095) & ~uintptr_t( 4095); ++nr; ++n_maps;
    *reinterpret_cast< uint64_t * >( static_cast< char * >( p) + z - 8) = ( reinterpret_cast< uintptr_t >( p) + z) | 1;
    sim::cov( "shadow stack mapped");
    return static_cast< long >( r[nr - 1].lo);
}
void sim_shadow_unmap( uintptr_t a, size_t z) {
    for ( int i = 0; i < nr; ++i) if ( a < r[i].hi && r[i].lo < a + z) {
        if ( a > r[i].lo || a + z < r[i].hi) fail( "shadow-stack", "a part of a shadow stack is unmapped");
        for ( int t = 0; t < nt; ++t) if ( of_thread[t] > r[i].lo && of_thread[t] <= r[i].hi) fail( "shadow-stack", "the shadow stack being executed on is unmapped");
        r[i] = r[--nr]; --i; sim::cov( "shadow stack unmapped");
    }
}
}
int shs_live() { return nr; }
uint64_t shs_mapped() { return n_maps; }
