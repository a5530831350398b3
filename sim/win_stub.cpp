// A model of the Windows services the library uses: fibers (on the machinery of glibc's contexts) and virtual memory.
#include "core.hpp"
#include "env.hpp"
#include "win/windows.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" { int __real_getcontext( ucontext_t *); void * __real_mmap( void *, size_t, int, int, int, off_t); int env_getcontext_fails();
void * __wrap_mmap( void *, size_t, int, int, int, off_t); int __wrap_munmap( void *, size_t); int __wrap_mprotect( void *, size_t, int); }
using sim::fail;
namespace {
enum { MAXF = 6000, SSZ = 512 * 1024 };
enum St { FREE, THREAD, CREATED, SUSPENDED, RUNNING };
struct Fiber { uint64_t magic; int st; bool thread; LPFIBER_START_ROUTINE fn; LPVOID arg; char * stack; size_t cap; ucontext_t uc; };
Fiber * F[MAXF]; int nf = 0; char * pool[MAXF]; int npool = 0;
const uint64_t MAGIC = 0xF1BE0F1BE0F1BE00ull;
__thread Fiber * cur = nullptr; __thread DWORD last_error = 0;
Fiber * get( LPVOID p, const char * w) {
    for ( int i = 0; i < nf; ++i) if ( F[i] == p) { if ( F[i]->st == FREE) fail( "os-contract", "%s of a fiber that was deleted", w); return F[i]; }
    fail( "os-contract", "%s of something that is no fiber", w); return nullptr;
}
Fiber * make() { 
    env::HarnessScope hs; if ( nf >= MAXF) fail( "harness-fiber", "too many fibers");
    Fiber * f = static_cast< Fiber * >( __real_mmap( nullptr, sizeof( Fiber), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) );
    f->magic = MAGIC; F[nf++] = f; return f;
}
void start( int lo, int hi) {
    Fiber * f = reinterpret_cast< Fiber * >( static_cast< uintptr_t >( static_cast< unsigned >( lo) ) | static_cast< uintptr_t >( static_cast< unsigned >( hi) ) << 32);
    f->fn( f->arg);
    fail( "os-contract", "the start routine of a fiber returned: Windows ends the thread");
}
}
extern "C" {
DWORD GetLastError() { return last_error; }
void SetLastError( DWORD e) { last_error = e; }
LPVOID CreateFiberEx( SIZE_T commit, SIZE_T reserve, DWORD, LPFIBER_START_ROUTINE fn, LPVOID arg) {
    if ( env_getcontext_fails() ) { last_error = static_cast< DWORD >( errno); return nullptr; }
    if ( ! fn) fail( "os-contract", "CreateFiber without a start routine");
    Fiber * f = make(); f->st = CREATED; f->fn = fn; f->arg = arg;
    if ( ! reserve) reserve = 65536;         // the linker's default, which a program may set as small as this
    f->cap = commit > reserve ? commit : reserve;
    if ( npool) f->stack = pool[--npool];
    else {
        f->stack = static_cast< char * >( __real_mmap( nullptr, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) );
        if ( f->stack == MAP_FAILED) fail( "harness-mmap", "no memory for the stack of a fiber");
    }
    __real_getcontext( & f->uc); f->uc.uc_stack.ss_sp = f->stack; f->uc.uc_stack.ss_size = SSZ; f->uc.uc_link = nullptr;
    uintptr_t a = reinterpret_cast< uintptr_t >( f);
    makecontext( & f->uc, reinterpret_cast< void (*)() >( start), 2, static_cast< int >( a), static_cast< int >( a >> 32) );
    sim::cov( "fiber of the operating system created");
    return f;
}
LPVOID CreateFiber( SIZE_T n, LPFIBER_START_ROUTINE fn, LPVOID arg) { return CreateFiberEx( n, 0, 0, fn, arg); }
VOID SwitchToFiber( LPVOID p) {
    Fiber * f = get( p, "SwitchToFiber"), * me = cur;
    if ( ! me) fail( "os-contract", "SwitchToFiber on a thread that is no fiber");
    if ( f->st == RUNNING) fail( "os-contract", f == me ? "a fiber switches to itself" : "SwitchToFiber to a fiber that runs on another thread");
    me->st = SUSPENDED; f->st = RUNNING; cur = f; last_error = 77;
    swapcontext( & me->uc, & f->uc);
}
VOID DeleteFiber( LPVOID p) {
    Fiber * f = get( p, "DeleteFiber");
    if ( f == cur) fail( "os-contract", "a fiber deletes itself: Windows ends the thread");
    if ( f->st == RUNNING) fail( "os-contract", "a fiber that runs on another thread is deleted");
    if ( f->thread) fail( "os-contract", "the fiber of a thread is deleted");
    if ( f->stack) { uintptr_t sp = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ), lo = reinterpret_cast< uintptr_t >( f->stack); if ( sp >= lo && sp < lo + SSZ) fail( "os-contract", "the stack being executed on is deleted"); memset( f->stack + SSZ - 8192, 0xDD, 8192); pool[npool++] = f->stack; }
    f->st = FREE; f->stack = nullptr; last_error = 77;
}
LPVOID ConvertThreadToFiberEx( LPVOID, DWORD) {
    if ( cur) { last_error = ERROR_ALREADY_FIBER; return nullptr; }
    Fiber * f = make(); f->thread = true; f->st = RUNNING; cur = f; return f;
}
LPVOID ConvertThreadToFiber( LPVOID p) { return ConvertThreadToFiberEx( p, 0); }
BOOL ConvertFiberToThread() {
    if ( ! cur) { last_error = ERROR_ALREADY_THREAD; return FALSE; }
    if ( cur->thread) cur->st = FREE;
    cur = nullptr; return TRUE;
}
BOOL IsThreadAFiber() { return cur != nullptr; }
LPVOID GetCurrentFiber() { return cur ? cur : reinterpret_cast< LPVOID >( 0x1E00); }
static struct { LPVOID p; SIZE_T n; } V[4096]; static int nv = 0;
static int prot( DWORD p) { return p & PAGE_GUARD || p == PAGE_NOACCESS ? PROT_NONE : PROT_READ | PROT_WRITE; }
LPVOID VirtualAlloc( LPVOID at, SIZE_T n, DWORD type, DWORD p) {
    if ( n == 0) { last_error = 87; return nullptr; }
    if ( at || ! ( type & MEM_COMMIT) ) fail( "os-contract", "unexpected use of VirtualAlloc");
    void * m = __wrap_mmap( nullptr, n, prot( p), MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ( m == MAP_FAILED) { last_error = 8; return nullptr; }
    for ( int i = 0; i <= nv && i < 4096; ++i) if ( i == nv || ! V[i].p) { if ( i == nv) ++nv; V[i].p = m; V[i].n = n; return m; }
    fail( "harness-virtual", "too many regions"); return nullptr;
}
BOOL VirtualProtect( LPVOID at, SIZE_T n, DWORD p, PDWORD old) {
    if ( ! old) { last_error = 998; return FALSE; }
    if ( __wrap_mprotect( at, n, prot( p) ) ) { last_error = 8; return FALSE; }
    *old = PAGE_READWRITE; return TRUE;
}
BOOL VirtualFree( LPVOID at, SIZE_T n, DWORD type) {
    if ( type != MEM_RELEASE || n) { last_error = 87; return FALSE; }       // what Windows answers: nothing is released
    for ( int i = 0; i < nv; ++i) if ( V[i].p == at) { __wrap_munmap( at, V[i].n); V[i].p = nullptr; return TRUE; }
    fail( "os-contract", "VirtualFree of an address that VirtualAlloc did not return"); return FALSE;
}
VOID GetSystemInfo( SYSTEM_INFO * s) { memset( s, 0, sizeof( *s) ); s->dwPageSize = static_cast< DWORD >( sysconf( _SC_PAGESIZE) ); s->dwAllocationGranularity = 65536; }
size_t win_stack_size() { return cur ? cur->cap : 0; }
int win_fibers_live() { int n = 0; for ( int i = 0; i < nf; ++i) n += F[i]->st != FREE && ! F[i]->thread; return n; }
}
