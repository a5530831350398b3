// API world: real boost::context::fiber / continuation objects driven by a seeded scheduler and checked against a
// reference model of contexts, handles, stacks and destructors.  C++11.
// Build configuration: -DAPI_FIBER or -DAPI_CALLCC, and the library's own configuration macros.
#include "core.hpp"
#include "env.hpp"
#include "vg.hpp"

#if defined(API_FIBER)
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#else
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>

#include <cerrno>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <system_error>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace ctx = boost::context;
using sim::choose; using sim::fail; using sim::knob;

#if defined(BOOST_USE_SEGMENTED_STACKS)
enum { SEGMENTED = 1 };
#else
enum { SEGMENTED = 0 };
#endif
#if defined(BOOST_USE_WINFIB)      // Windows brings the stack of a fiber itself
enum { ELSEWHERE = 1 };
extern "C" int win_fibers_live(); extern "C" size_t win_stack_size();
static void maybe_fiber() { if ( choose( 3) == 1) { ConvertThreadToFiber( nullptr); sim::cov( "thread is a fiber already"); } }
#else
enum { ELSEWHERE = 0 };
static int win_fibers_live() { return 0; }
static size_t win_stack_size() { return ~size_t( 0); }
static void maybe_fiber() {}
#endif
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
enum { UCTX = 1 };
#else
enum { UCTX = 0 };
#endif

extern "C" unsigned sim_regcall( void (*)( void *), void *, const uint64_t *);

// sanitizer configuration checker (san_stub.cpp); no-ops in ordinary builds
#if defined(SIM_SAN)
void san_woke( int me); void san_bind( int me); void san_thread(); void san_final(); void san_dead( int me);
#else
#if defined(SIM_SHS)
int shs_live(); static void san_woke( int);
#else
static void san_woke( int) {}
#endif
static void san_bind( int) {} static void san_thread() {} static void san_final() {}
#endif

// ================================================================ model ===========
enum St { FREE, UNSTARTED, SUSP, RUN, BLOCKED, DONE };
#if defined(__clang__)
enum { EXTRA = 65536 };     // larger frames
#else
enum { EXTRA = 0 };
#endif
enum { MAXC = 400, NS = 14, MAXTH = 3, MAXTOK = 96 };
struct MCtx {
    int st, is_main, thr, pin, started, body_live, unwinding, depth, sites, floor, ntok, expect_ret, pend, expect_exc, exc_site, owner, stack, infn, created_thr, libdrop, libpin, libret, argheld, finto, finfrom, dropper;
    uint32_t tok[MAXTOK];
    uint32_t mx; uint16_t cw; uint64_t guard;
    const volatile char * frame0;      // address inside the first frame, while the function is running
};
static MCtx M[MAXC]; static int nctx = 0;
struct Slot { Ctx h; int who; bool dead; Slot() : h(), who( -1), dead( false) {} };
static Slot S[NS];
struct Th { bool alive, exited; int late; int main; sem_t sem; pthread_t pt; Slot mslot; Th() : alive( false), exited( false), late( 0), main( -1), pt() {} };
static Th T[MAXTH]; static int nth = 0;
static volatile int cur_thread = 0;
static int cur[MAXTH];
static long budget = 0; static bool drain = false; static long drain_steps = 0;
static uint64_t switches = 0;
static uint32_t tok_serial = 0, exc_serial = 0;
static int expect_term_ctx = -1; static int expect_term_id = 0;
static int join_req = -1;
static bool exiting = false; static long exit_steps = 0;      // exit() has been called
static void finish_exit();
static int maxth = 1;

struct SimEx {            // exception used by the workload; may carry the resumer's handle
    int id, levels; uint64_t canary; Ctx h; int who;
    SimEx( int i, int l) : id( i), levels( l), canary( 0x51aeb00c00000000ull + static_cast< uint64_t >( i) ), h(), who( -1) {}
    SimEx( SimEx && o) noexcept : id( o.id), levels( o.levels), canary( o.canary), h( std::move( o.h) ), who( o.who) { o.who = -1; }
    virtual ~SimEx() {}
    virtual int cls() const { return 0; }
    virtual bool intact() const { return true; }
};
struct SimExDerived : public SimEx {
    unsigned char more[200]; explicit SimExDerived( SimEx && o) : SimEx( std::move( o) ) { memset( more, id & 0xff, sizeof( more) ); }
    int cls() const { return 1; }
    bool intact() const { for ( unsigned char c : more) if ( c != ( id & 0xff) ) return false; return true; }
};
struct SimExStd : public std::runtime_error, public SimEx {      // what most programs throw
    explicit SimExStd( SimEx && o) : std::runtime_error( "simulated failure"), SimEx( std::move( o) ) {}
    int cls() const { return 2; }
    bool intact() const { return 0 == strcmp( what(), "simulated failure"); }
};
struct SimExAlloc : public std::bad_alloc, public SimEx {        // looks like the failures the library itself reports
    explicit SimExAlloc( SimEx && o) : SimEx( std::move( o) ) {}
    int cls() const { return 3; }
};
static unsigned char ex_cls[65536];
struct EscEx { int id; explicit EscEx( int i) : id( i) {} };
struct EscStdEx : public std::runtime_error { int id; explicit EscStdEx( int i) : std::runtime_error( "escape"), id( i) {} };
struct CopyEx { int id; };

static int T_() { return cur_thread; }

// ---------------------------------------------------------------- FP environment -----
static uint32_t get_mx() { uint32_t v; __asm__ volatile( "stmxcsr %0" : "=m"( v) ); return v & 0xFFC0u; }
static uint16_t get_cw() { uint16_t v; __asm__ volatile( "fnstcw %0" : "=m"( v) ); return v; }
static void set_fp( uint32_t mx, uint16_t cw) { __asm__ volatile( "ldmxcsr %0" :: "m"( mx) ); __asm__ volatile( "fldcw %0" :: "m"( cw) ); }
#if defined(SIM_GUARD)
static uint64_t get_guard() { uint64_t v; __asm__ volatile( "movq %%fs:0x28, %0" : "=r"( v) ); return v; }
static void set_guard( uint64_t v) { __asm__ volatile( "movq %0, %%fs:0x28" :: "r"( v) ); }
#else
static uint64_t get_guard() { return 0; }
static void set_guard( uint64_t) {}
#endif
static void fp_check( int me, const char * where) {
    if ( get_guard() != M[me].guard) fail( "stack-guard", "%s: context %d has another stack guard value than its own", where, me);
    uint32_t mx = get_mx(); uint16_t cw = get_cw();
    if ( mx != M[me].mx || cw != M[me].cw)
        fail( "fp-env", "%s: context %d has MXCSR %04x / x87 CW %04x instead of its own %04x / %04x", where, me, mx, cw, M[me].mx, M[me].cw);
}

// ---------------------------------------------------------------- ledger of stacks -----
struct Stk { uintptr_t base, sp; size_t size; int tag, live, who, kind, reserve, lval; uintptr_t res_lo; };
static unsigned short acopies[4096]; static int req_lval = 0;
enum { MAXSTK = 900 };
static Stk K[MAXSTK]; static int nstk = 0; static int pending_ctx = -1; static int pending_stack = -1;
static int stacks_live() { int n = 0; for ( int i = 0; i < nstk; ++i) n += K[i].live; return n; }
static int ending;      // function objects of ended contexts that are being destroyed
#if defined(SIM_SHS)
static void san_woke( int) {
    int n = 0; for ( int i = 0; i < nctx; ++i) n += ! M[i].is_main && M[i].st != FREE && M[i].st != DONE;
    if ( shs_live() < n || shs_live() > n + ending) fail( "shadow-stack", "%d shadow stacks are mapped for %d contexts", shs_live(), n);
    sim::cov( "shadow stacks counted");
}
#endif

// ---------------------------------------------------------------- tracked objects ------
struct Obj { const void * a; int id, kind, live; };   // live instances of tracked callables / allocators
enum { MAXOBJ = 1200 };
static Obj O[MAXOBJ]; static int nobj = 0;
static int obj_add( const void * a, int id, int kind) {
    int i = 0; for ( ; i < nobj; ++i) if ( ! O[i].live) break;
    if ( i == nobj) { if ( nobj == MAXOBJ) fail( "harness-objects", "too many tracked objects"); ++nobj; }
    O[i].a = a; O[i].id = id; O[i].kind = kind; O[i].live = 1; return i;
}
static void obj_del( const void * a, int id, int kind) {
    for ( int i = 0; i < nobj; ++i) if ( O[i].live && O[i].a == a && O[i].kind == kind) {
        if ( O[i].id != id) fail( "object-lifetime", "callable or allocator object changed identity");
        O[i].live = 0; return;
    }
    fail( "object-lifetime", "destructor ran on a %s copy that is not alive (id %d)", kind == 1 ? "context function" : kind == 2 ? "stack allocator" : "injected function", id);
}
static int obj_count( int id, int kind) { int n = 0; for ( int i = 0; i < nobj; ++i) n += O[i].live && O[i].id == id && O[i].kind == kind; return n; }
static int obj_total( int kind) { int n = 0; for ( int i = 0; i < nobj; ++i) n += O[i].live && O[i].kind == kind; return n; }

// a stack (or part of memory) is about to be released
static void releasing( uintptr_t base, size_t len, const char * how) {
    for ( int i = 0; i < nctx; ++i) {
        if ( M[i].is_main || ! M[i].body_live || ! M[i].frame0) continue;
        uintptr_t f = reinterpret_cast< uintptr_t >( M[i].frame0);
        if ( f >= base && f < base + len) fail( "stack-in-use", "%s released the stack of context %d while its function is still running", how, i);
    }
    for ( int i = 0; i < nobj; ++i) {
        uintptr_t a = reinterpret_cast< uintptr_t >( O[i].a);
        if ( O[i].live && a >= base && a < base + len)
            fail( "object-lifetime", "%s released a stack that still holds a live %s", how, O[i].kind == 1 ? "context function" : "stack allocator or injected function");
    }
    for ( int i = 0; i < nstk; ++i)
        if ( K[i].live && K[i].kind != 3 && K[i].base < base + len && base < K[i].sp)
            fail( "stack-release", "%s released memory of a stack its allocator did not get back", how);
}

// ---------------------------------------------------------------- switching ---------------
static int op_kind = 0;      // 1 create 2 inject 3 any other switch: the operation faults are armed for
static void model_switch( int from, int to, int fromst, int ret, int kind) {
    int t = T_();
    M[from].st = fromst; M[to].st = RUN; M[to].thr = t; M[to].expect_ret = ret; cur[t] = to;
    sim::sched( static_cast< uint32_t >( from), static_cast< uint32_t >( to), static_cast< uint32_t >( kind * 8 + t) );
    sim::ev( 1, static_cast< uint64_t >( from), static_cast< uint64_t >( to), static_cast< uint64_t >( kind) );
    uint64_t st = 0; for ( int i = 0; i < nctx; ++i) st = st * 31 + static_cast< uint64_t >( M[i].st * 8 + (M[i].ntok > 7 ? 7 : M[i].ntok) );
    sim::state( st * 131 + static_cast< uint64_t >( kind) );
    if ( kind < 4 && static_cast< long >( choose( 1000) ) < knob( "p_nomem", 50) ) {        // resuming, finishing and dropping need no memory
        sim::cov( kind == 1 ? "resume without memory" : kind == 2 ? "finish without memory" : "drop without memory");
        op_kind = 3; env::arm_sticky( env::F_MALLOC | env::F_NEW, 0);
    }
}
static int op_alloc = 0;
static void late_fault( int f) {
    if ( op_kind == 2) fail( "failed-inject", "control was transferred although the injected function could not be stored");
    if ( op_kind == 1 && op_alloc == 4 && f == env::F_MALLOC) { sim::cov( "pool retried with a smaller block"); return; }     // boost::pool does
    if ( op_kind == 1 && f != env::F_MPROTECT) fail( "failed-create", "a context was started although a resource it needs failed");
}
// a window of single-stepped instructions: every one of them is followed by a signal on the current stack
static bool sp_; 
static void step_window() {
    if ( knob( "p_step", 0) == 0) return;
    sp_ = static_cast< long >( choose( 1000) ) < knob( "p_step", 0);
    if ( sp_) env::step_on( choose( 60), 1 + choose( 400) );
}
static void settle( int me); static void settle_end( int me);
static void __attribute__((noinline)) woke( int me, const char * where) {
    env::step_off(); env::lib = 0; settle( me); if ( M[me].finfrom) settle_end( M[me].finfrom - 1); ++switches; sim::step();
    int t = T_();
    if ( int f = env::disarm() ) late_fault( f);      // control was transferred: whatever is still armed stays harmless
    if ( expect_term_ctx >= 0) fail( "exception-escape", "context %d runs after an exception escaped from the function of context %d", me, expect_term_ctx);
    if ( ! pthread_equal( pthread_self(), T[t].pt) ) fail( "wrong-thread", "context %d woke on another thread than the one that resumed it", me);
    if ( cur[t] != me) fail( "wrong-context", "%s: context %d woke up but context %d was resumed", where, me, cur[t]);
    if ( M[me].pend) fail( "inject-lost", "%s: context %d continues but the function injected into it has not run", where, me);
    if ( std::current_exception() ) fail( "exception-left", "%s: context %d runs while an exception counts as being handled, although no handler is active", where, me);
    if ( M[me].st != RUN) fail( "wrong-context", "%s: context %d runs but the model has it in state %d", where, me, M[me].st);
    fp_check( me, where);
    san_woke( me);
    const char * sp = static_cast< const char * >( __builtin_frame_address( 0) );
    if ( ! SEGMENTED && ! ELSEWHERE && M[me].stack >= 0) {
        Stk & k = K[M[me].stack];
        uintptr_t a = reinterpret_cast< uintptr_t >( sp), top = k.reserve ? k.res_lo : k.sp;
        if ( ! k.live) fail( "stack-in-use", "context %d runs on a stack already given back", me);
        if ( a < k.base || a >= top) fail( "stack-bounds", "context %d runs outside the stack it was given", me);
    }
}
static int free_slots() { int n = 0; for ( int i = 0; i < NS; ++i) n += S[i].who < 0 && ! S[i].dead; return n; }
static int free_slot() { for ( int i = 0; i < NS; ++i) if ( S[i].who < 0 && ! S[i].dead) return i; fail( "harness-slots", "no free slot"); }
static void put( int who, Ctx && h) {
    if ( ! h) fail( "handle-empty", "a handle that must denote context %d is empty", who);
    if ( ! h == static_cast< bool >( h) ) fail( "handle-bool", "operator! disagrees with operator bool");
    M[who].owner = -1;
    if ( M[who].is_main) {
        Slot & m = T[M[who].thr].mslot;
        if ( m.who >= 0) fail( "harness-main", "second handle to a main context");
        m.h = std::move( h); m.who = who;
    } else { int s = free_slot(); S[s].h = std::move( h); S[s].who = who; S[s].dead = false; }
    if ( h) fail( "handle-move", "moved-from handle is still valid");
}
// the handle that a wake-up delivered to `me`
static void receive( int me, Ctx && r) {
    int e = M[me].expect_ret; M[me].expect_ret = -2;
    if ( e == -2) fail( "harness-expect", "unexpected wake of %d", me);
    if ( e < 0) {
        if ( r) fail( "handle-valid", "context %d received a valid handle although it had to be empty", me);
        if ( choose( 4) == 1 && free_slots() > 6) { int s = free_slot(); S[s].h = std::move( r); S[s].dead = true; sim::cov( "dead handle kept"); }
        else { env::LibScope l; Ctx tmp( std::move( r) ); }
    } else {
        sim::ev( 2, static_cast< uint64_t >( me), static_cast< uint64_t >( e) );
        put( e, std::move( r) );
    }
}
static Ctx take( int who) {
    if ( M[who].is_main) { Slot & m = T[M[who].thr].mslot; if ( m.who != who) fail( "harness-take", "main handle"); m.who = -1; return std::move( m.h); }
    for ( int i = 0; i < NS; ++i) if ( S[i].who == who) { S[i].who = -1; return std::move( S[i].h); }
    fail( "harness-take", "handle %d not in a slot", who);
}
static bool in_slot( int who) {
    if ( M[who].is_main) return T[M[who].thr].mslot.who == who;
    for ( int i = 0; i < NS; ++i) if ( S[i].who == who) return true;
    return false;
}
// may thread t resume `who` now?
static bool resumable( int who, int t) {
    if ( ! in_slot( who) ) return false;
    if ( M[who].is_main) return M[who].thr == t;
    if ( M[who].st != SUSP && M[who].st != UNSTARTED) return false;
    if ( M[who].pin && M[who].thr != t) return false;
    if ( M[who].thr != t && ! knob( "migrate", 1) ) return false;
    return true;
}
static bool droppable( int who, int t) { return ! M[who].is_main && ! M[who].pin && resumable( who, t); }
static int pick( bool (*ok)( int, int), int not_this = -1) {
    int c[MAXC], n = 0, t = T_();
    for ( int i = 0; i < nctx; ++i) if ( i != not_this && ( M[i].st == SUSP || M[i].st == UNSTARTED) && ok( i, t) ) c[n++] = i;
    if ( ! n) { choose( 16); return -1; }
    return c[choose( 16) * static_cast< uint32_t >( n) / 16];
}
static int pick2( bool (*ok)( int, int), int st) {
    int c[MAXC], n = 0, t = T_();
    for ( int i = 0; i < nctx; ++i) if ( M[i].st == st && ok( i, t) ) c[n++] = i;
    if ( ! n) return -1;
    return c[choose( 16) * static_cast< uint32_t >( n) / 16];
}
static void yield_to( int u) {
    int me = T_();
    if ( u == me) return;
    sim::ev( 3, static_cast< uint64_t >( me), static_cast< uint64_t >( u) ); sim::cov( "thread switch");
    cur_thread = u; sem_post( & T[u].sem);
    while ( sem_wait( & T[me].sem) ) {}
    if ( join_req >= 0) { pthread_join( T[join_req].pt, nullptr); T[join_req].exited = true; join_req = -1; }
}

// frames of a suspended context may own the running one only through handles that exist; the running context has none
static bool owns_transitively( int root, int x) { for ( int o = M[x].owner, n = 0; o >= 0 && n < MAXC; o = M[o].owner, ++n) if ( o == root) return true; return false; }

// ---------------------------------------------------------------- dropping ------------------
enum { BASE = 1, PUSHED = 2, INFN = 4, INDTOR = 8, MAINF = 16, DEEPF = 32 };
static int frame( int me, int flags);
static void drop_done( int me, int who, int pin, const char * how, bool here = true) {
    int t = T_(); settle_end( who);
    if ( cur[t] != who) fail( "drop-order", "dropping context %d gave control back while context %d runs", who, cur[t]);
    if ( M[who].ntok) fail( "unwind-incomplete", "dropping context %d left %d of its objects undestroyed", who, M[who].ntok);
    if ( M[who].body_live) fail( "unwind-incomplete", "dropping context %d did not end its function", who);
    M[who].st = DONE; M[me].st = RUN; M[me].pin = pin; cur[t] = me;
    if ( here) { fp_check( me, "after drop"); san_woke( me); }
    sim::cov( how);
    if ( M[who].stack >= 0 && K[M[who].stack].live) fail( "stack-leak", "stack of dropped context %d was not given back", who);
}
// an injected function leaves the handle of its resumer where the library passed it: the library drops it when the function is left
static void lib_drop( int me, int who, int ret) {
    M[who].owner = -1;
    sim::ev( 4, static_cast< uint64_t >( me), static_cast< uint64_t >( who) );
    model_switch( me, who, BLOCKED, -2, 3);
    M[who].dropper = me;
    M[who].unwinding = 1; M[me].libdrop = who + 1; M[me].libpin = M[me].pin; M[me].libret = ret; M[me].pin = 1;
}
static void settle( int me) {
    if ( ! M[me].libdrop) return;
    int who = M[me].libdrop - 1; M[me].libdrop = 0; ++switches; sim::step();
    drop_done( me, who, M[me].libpin, "drop of a handle left in the argument");
    M[me].expect_ret = M[me].libret;
}
// the same when the function of `me` has ended: seen when the stack of `me` is released or whoever follows runs
static void settle_end( int me) {
    if ( M[me].libdrop) {
        int who = M[me].libdrop - 1; M[me].libdrop = 0; ++switches; sim::step();
        drop_done( me, who, M[me].libpin, "drop of a handle left in the argument of a context function", false);
    }
    if ( M[me].finto) { int s = M[me].finto - 1; M[me].finto = 0; M[s].finfrom = 0; M[me].pin = 0; model_switch( me, s, DONE, -1, 2); }
}
template< typename F > static void model_drop( int me, int who, F f) {
    int t = T_();
    M[who].owner = -1;
    sim::ev( 4, static_cast< uint64_t >( me), static_cast< uint64_t >( who) );
    bool unst = M[who].st == UNSTARTED;
    if ( M[who].pend) fail( "inject-lost", "the function injected into context %d has never run", who);
    model_switch( me, who, BLOCKED, -2, 3);
    M[who].dropper = me;
    M[who].unwinding = 1;
    int pin = M[me].pin; M[me].pin = 1;
    step_window(); env::lib = 1; f(); env::lib = 0; env::step_off(); env::disarm();
    ++switches; sim::step();
    if ( t != T_() || ! pthread_equal( pthread_self(), T[t].pt) ) fail( "wrong-thread", "drop came back on another thread");
    drop_done( me, who, pin, unst ? "drop never-started" : "drop suspended");
}

// ---------------------------------------------------------------- frames ---------------------
struct Tok {               // an object with a destructor on the stack of context `me`
    int me; uint32_t id; uint64_t can; bool work;
    Tok( int m, bool w) : me( m), id( ++tok_serial), can( 0x70ce700000000000ull + id), work( w) {
        if ( M[me].ntok >= MAXTOK) fail( "harness-tok", "too many frames");
        M[me].tok[M[me].ntok++] = id; ++M[me].depth;
    }
    Tok( Tok const&) = delete;
    ~Tok();
};
static void dtor_work( int me);
Tok::~Tok() {
    env::HarnessScope hs;
    if ( can != 0x70ce700000000000ull + id) fail( "local-corrupt", "an object on the stack of context %d was overwritten", me);
    can = 0;
    int t = T_(); settle( me);
    if ( ! pthread_equal( pthread_self(), T[t].pt) ) fail( "wrong-thread", "destructor runs on the wrong thread");
    if ( cur[t] != me) fail( "dtor-context", "a destructor of context %d runs while context %d is current", me, cur[t]);
    if ( expect_term_ctx >= 0 && expect_term_ctx != me) fail( "exception-escape", "destructors of context %d run after an escape", me);
    if ( ! M[me].ntok || M[me].tok[M[me].ntok - 1] != id) fail( "dtor-order", "destructors of context %d run out of order or twice", me);
    fp_check( me, "in destructor");
    if ( work && ! drain && expect_term_ctx < 0) dtor_work( me);
    --M[me].ntok; --M[me].depth;
}
struct Pat {               // plain locals of a frame
    uint64_t seed; volatile uint64_t v[12];
    explicit Pat( uint64_t s) : seed( s) { for ( int i = 0; i < 12; ++i) v[i] = seed * 0x9E3779B97F4A7C15ull + static_cast< uint64_t >( i); }
    void check( int me) { for ( int i = 0; i < 12; ++i) if ( v[i] != seed * 0x9E3779B97F4A7C15ull + static_cast< uint64_t >( i) ) fail( "local-corrupt", "a local variable of context %d changed while it was suspended", me); }
};
struct Hold {              // a handle owned by a stack frame
    int me, who; Ctx h;
    explicit Hold( int m) : me( m), who( -1), h() {}
    ~Hold() {
        settle( me);
        if ( who >= 0 && expect_term_ctx >= 0) {      // the program is about to end: give the handle up without dropping it
            static char grave[16][sizeof( Ctx)]; static int ng = 0;
            if ( ng < 16) new ( grave[ng++]) Ctx( std::move( h) );
            who = -1;
        }
        if ( who >= 0) {
            env::HarnessScope hs;
            if ( cur[T_()] != me) fail( "dtor-context", "a destructor of context %d runs while context %d is current", me, cur[T_()]);
            int w = who; who = -1; sim::cov( "drop by owner frame");
            if ( std::uncaught_exception() ) sim::cov( "nested drop during unwinding");
            // the handle must still be the one stored
            if ( ! h) fail( "handle-empty", "handle stored in a frame became empty");
            Ctx tmp( std::move( h) );
            model_drop( me, w, [&tmp]{ Ctx x( std::move( tmp) ); });
        }
    }
};
static void dtor_work( int me) {
    sim::cov( M[me].unwinding ? "work in destructor (forced unwind)" : std::uncaught_exception() ? "work in destructor (exception)" : "work in destructor (normal)");
    int pin = M[me].pin, floor = M[me].floor, sites = M[me].sites, er = M[me].expect_ret, ee = M[me].expect_exc, es = M[me].exc_site, uw = M[me].unwinding;
    M[me].pin = 1; M[me].floor = M[me].sites; M[me].expect_exc = 0;
    frame( me, INDTOR);
    M[me].pin = pin; M[me].floor = floor; M[me].sites = sites; M[me].expect_ret = er; M[me].expect_exc = ee; M[me].exc_site = es; M[me].unwinding = uw;
    if ( cur[T_()] != me) fail( "wrong-context", "destructor work ended in another context");
}
// an object destroyed by the library drops the context it owns and, before that, might use other contexts
static void own_drop( int me, int who, Ctx && h, bool work) {
    int er = M[me].expect_ret, ee = M[me].expect_exc, es = M[me].exc_site, uw = M[me].unwinding, pin = M[me].pin;
    Ctx tmp( std::move( h) );
    if ( work && ! drain) { sim::cov( "work in the destructor of a function object"); dtor_work( me); }
    model_drop( me, who, [&tmp]{ Ctx x( std::move( tmp) ); });
    M[me].expect_ret = er; M[me].expect_exc = ee; M[me].exc_site = es; M[me].unwinding = uw; M[me].pin = pin;
}
static void throw_ex( int target, Ctx && h, int who) {
    // choose at which enclosing handler of `target` the exception is to be caught
    int avail = M[target].sites - M[target].floor;
    if ( avail <= 0) fail( "harness-throw", "no handler");
    int levels = static_cast< int >( choose( static_cast< uint32_t >( avail > 8 ? 8 : avail) ) );
    int id = ++exc_serial;
    M[target].expect_exc = id; M[target].exc_site = M[target].sites - 1 - levels;
    sim::ev( 5, static_cast< uint64_t >( target), static_cast< uint64_t >( levels) );
    SimEx e( id, levels); e.h = std::move( h); e.who = who;
    int cls = static_cast< int >( choose( 5) ); if ( cls == 4) cls = 2;
    ex_cls[id & 0xffff] = static_cast< unsigned char >( cls);
    switch ( cls) {
    case 1: throw SimExDerived( std::move( e) );
    case 2: throw SimExStd( std::move( e) );
    case 3: throw SimExAlloc( std::move( e) );
    default: throw SimEx( std::move( e) ); }
}
// called in a handler: true when this is the site that keeps the exception
static bool caught_here( int me, SimEx & e, int save) {
    env::step_off(); env::lib = 0; settle( me);
    int t = T_();
    if ( cur[t] != me) fail( "exception-context", "an exception for context %d surfaced in context %d", cur[t], me);
    M[me].sites = save;
    if ( e.canary != 0x51aeb00c00000000ull + static_cast< uint64_t >( e.id) ) fail( "exception-corrupt", "exception object damaged");
    if ( e.cls() != ex_cls[e.id & 0xffff] || ! e.intact() ) fail( "exception-corrupt", "exception %d arrived as another object than the one thrown", e.id);
    if ( M[me].expect_exc != e.id) fail( "exception-unexpected", "context %d got exception %d, expected %d", me, e.id, M[me].expect_exc);
    if ( e.levels > 0) { --e.levels; return false; }
    if ( M[me].exc_site != save) fail( "exception-site", "exception caught by the wrong handler of context %d (%d instead of %d)", me, save, M[me].exc_site);
    return true;
}
struct Caught { int id, who; Ctx h; Caught() : id( 0), who( -1), h() {} };
static void after_catch( int me, Caught & c) {
    if ( ! c.id) return;
    M[me].expect_exc = 0; sim::cov( "exception caught");
    sim::ev( 6, static_cast< uint64_t >( me), static_cast< uint64_t >( c.who + 1) );
    if ( c.who >= 0) put( c.who, std::move( c.h) );
    M[me].expect_ret = -2;
}

// ---------------------------------------------------------------- injected functions ------------
struct Inject { int kind, target, from, ran; int status; };
enum { MAXINJ = 3000 };
static Inject I[MAXINJ]; static int ninj = 0;
enum InjKind { IK_IDENT, IK_STASH, IK_SWAP, IK_THROW, IK_THROW_CARRY, IK_NEST, IK_NEST_THROW, IK_LEAVE, IK_LEAVE_THROW, IK_N };
static Ctx inj_run( int id, Ctx && arg) {
    int t = T_(), b = I[id].target, a = I[id].from;
    if ( I[id].ran++) fail( "inject-twice", "function injected into context %d ran more than once", b);
    if ( M[b].pend == id + 1) M[b].pend = 0;
    woke( b, "injected function");
    if ( M[b].expect_ret != a) fail( "inject", "function injected into context %d ran although the pending switch into it was recorded from context %d, not %d", b, M[b].expect_ret, a);
    if ( ! arg) fail( "handle-empty", "injected function received an empty handle");
    int kind = I[id].kind;
    if ( ( kind == IK_THROW || kind == IK_THROW_CARRY || kind == IK_NEST_THROW || kind == IK_LEAVE_THROW) && M[b].sites - M[b].floor <= 0) kind = IK_IDENT;
    if ( ( kind == IK_LEAVE || kind == IK_LEAVE_THROW) && ( drain || M[a].is_main || M[a].pin || expect_term_ctx >= 0) ) kind = IK_IDENT;
    if ( kind == IK_LEAVE || kind == IK_LEAVE_THROW) {
        sim::ev( 7, static_cast< uint64_t >( b), static_cast< uint64_t >( a), static_cast< uint64_t >( kind) );
        if ( kind == IK_LEAVE_THROW) {
            sim::cov( "inject throw leaving the handle"); M[b].expect_ret = -2;
            lib_drop( b, a, -2); throw_ex( b, Ctx(), -1);
        }
        sim::cov( "inject leaving the handle");
        int o = choose( 3) ? pick( resumable) : -1; Ctx r; if ( o >= 0) r = take( o);
        lib_drop( b, a, o); env::lib = 1; return r;
    }
    Ctx h( std::move( arg) );
    if ( arg) fail( "handle-move", "moved-from handle is still valid");
    sim::ev( 7, static_cast< uint64_t >( b), static_cast< uint64_t >( a), static_cast< uint64_t >( I[id].kind) );
    ++M[b].infn;
    switch ( kind) {
    case IK_IDENT: sim::cov( "inject identity"); break;
    case IK_STASH: sim::cov( "inject stash"); put( a, std::move( h) ); M[b].expect_ret = -1; --M[b].infn; env::lib = 1; return Ctx();
    case IK_SWAP: {
        int o = pick( resumable, a);
        if ( o >= 0 && o != a) { sim::cov( "inject substitute"); put( a, std::move( h) ); Ctx r = take( o); M[b].expect_ret = o; --M[b].infn; env::lib = 1; return r; }
        break; }
    case IK_THROW: sim::cov( "inject throw"); put( a, std::move( h) ); M[b].expect_ret = -2; --M[b].infn; throw_ex( b, Ctx(), -1); break;
    case IK_THROW_CARRY: sim::cov( "inject throw carrying handle"); M[b].expect_ret = -2; --M[b].infn; throw_ex( b, std::move( h), a); break;
    case IK_NEST: case IK_NEST_THROW: {
        sim::cov( "inject nested");
        put( a, std::move( h) ); M[b].expect_ret = -2;
        Pat p( static_cast< uint64_t >( id) * 7919 + 3);
        frame( b, INFN);
        p.check( b);
        if ( cur[T_()] != b) fail( "wrong-context", "injected function of %d continues while %d is current", b, cur[T_()]);
        --M[b].infn;
        if ( kind == IK_NEST_THROW && ! drain) { throw_ex( b, Ctx(), -1); }
        int o = choose( 3) ? pick( resumable) : -1;
        if ( o >= 0) { Ctx r = take( o); M[b].expect_ret = o; env::lib = 1; return r; }
        M[b].expect_ret = -1; env::lib = 1; return Ctx(); }
    }
    (void) t;
    M[b].expect_ret = a; --M[b].infn; env::lib = 1; return h;
}
template< int PAD, int ALIGN = 8 > struct alignas( ALIGN) Inj {
    int id; int state; int calls = 0; uint64_t can; char pad[PAD];
    enum { LIVE = 0x11FE, MOVED = 0x30BED, DEAD = 0xDEAD };
    explicit Inj( int i) : id( i), state( LIVE), can( 0xF00D0000u + static_cast< unsigned >( i) ) { memset( pad, i & 0xff, PAD); obj_add( this, id, 3); }
    Inj( Inj const& o) : id( o.id), state( o.state), can( o.can) {
        if ( o.state != LIVE) fail( "object-lifetime", "injected function copied from a dead or moved-from object");
        if ( env::should_fail( env::F_COPY) ) throw CopyEx{ id };
        memcpy( pad, o.pad, PAD); obj_add( this, id, 3); moved_in = o.moved_in; copied = true;
    }
    Inj( Inj && o) noexcept : id( o.id), state( o.state), can( o.can) {
        if ( o.state != LIVE) fail( "object-lifetime", "injected function moved from a dead or moved-from object");
        memcpy( pad, o.pad, PAD); o.state = MOVED; obj_add( this, id, 3); moved_in = o.moved_in; copied = o.copied;
    }
    ~Inj() { obj_del( this, id, 3); state = DEAD; }
#if defined(SIM_BASIC)
    Ctx operator()( Ctx && h) const { return run( std::move( h) ); }
#else
    Ctx operator()( Ctx && h) { ++calls; return run( std::move( h) ); }       // changes the object's own state
    Ctx operator()( Ctx &&) const { fail( "inject", "the injected function was called as a constant object"); return Ctx(); }
#endif
    Ctx run( Ctx && h) const {
        if ( state != LIVE || can != 0xF00D0000u + static_cast< unsigned >( id) ) fail( "object-lifetime", "injected function called on a dead, moved-from or damaged object");
        if ( reinterpret_cast< uintptr_t >( this) % ALIGN) fail( "alignment", "injected function object is misaligned");
        for ( int i = 0; i < PAD; ++i) if ( pad[i] != static_cast< char >( id & 0xff) ) fail( "object-lifetime", "state of the injected function was damaged");
        After a = { this, id };         // until it is left the object stays intact, even if its injector is dropped or finishes meanwhile
        if ( moved_in && copied) fail( "object-lifetime", "an injected function passed as an rvalue was copied instead of moved");
        return inj_run( id, std::move( h) );
    }
    bool moved_in = false, copied = false;
    struct After { Inj const* f; int id; ~After() {
        if ( expect_term_ctx >= 0) return;
        if ( f->state != LIVE || f->id != id || f->can != 0xF00D0000u + static_cast< unsigned >( id) ) fail( "object-lifetime", "the injected function object was damaged or destroyed while it was running");
        for ( int i = 0; i < PAD; ++i) if ( f->pad[i] != static_cast< char >( id & 0xff) ) fail( "object-lifetime", "state of the injected function was damaged while it was running");
    } };
};
static int inj_fp_id = -1;
static Ctx inj_fnptr( Ctx && h) { int id = inj_fp_id; inj_fp_id = -1; if ( id < 0) fail( "inject-twice", "injected function pointer ran again"); return inj_run( id, std::move( h) ); }

// ---------------------------------------------------------------- the context function -----------
static Ctx body( int me, Ctx && arg, const void * self, size_t self_align);
static int fn_copies[MAXC], fn_moves[MAXC];
template< int PAD, bool BYVAL, int ALIGN > struct alignas( ALIGN) Fn {
    int id; int state; uint64_t can; char pad[PAD];
    enum { LIVE = 0x11FE, MOVED = 0x30BED, DEAD = 0xDEAD };
    explicit Fn( int i) : id( i), state( LIVE), can( 0xC0DE0000u + static_cast< unsigned >( i) ) { memset( pad, i & 0xff, PAD); obj_add( this, id, 1); }
    Fn( Fn const& o) : id( o.id), state( o.state), can( o.can) {
        if ( env::should_fail( env::F_COPY) ) throw CopyEx{ id };
        env::HarnessScope hs;
        if ( o.state != LIVE) fail( "object-lifetime", "context function copied from a dead or moved-from object");
        memcpy( pad, o.pad, PAD); obj_add( this, id, 1); ++fn_copies[id];
    }
    Fn( Fn && o) noexcept : id( o.id), state( o.state), can( o.can) {
        env::HarnessScope hs;
        if ( o.state != LIVE) fail( "object-lifetime", "context function moved from a dead or moved-from object");
        memcpy( pad, o.pad, PAD); o.state = MOVED; obj_add( this, id, 1); ++fn_moves[id];
    }
    ~Fn() { env::HarnessScope hs; obj_del( this, id, 1); state = DEAD; }
    void ok() const {
        if ( state != LIVE || can != 0xC0DE0000u + static_cast< unsigned >( id) ) fail( "object-lifetime", "context function called on a dead, moved-from or damaged object");
        for ( int i = 0; i < PAD; ++i) if ( pad[i] != static_cast< char >( id & 0xff) ) fail( "object-lifetime", "state of the context function was damaged");
    }
    Ctx run( Ctx && h) {
        ok();
        if ( reinterpret_cast< uintptr_t >( this) % ALIGN) fail( "alignment", "context function object is misaligned");
        Unwound u = { this };
        Ctx r = body( id, std::move( h), this, ALIGN); u.f = nullptr; ok(); env::lib = 1; return r;
    }
    struct Unwound { Fn const* f; ~Unwound() { if ( f && expect_term_ctx < 0) f->ok(); } };
};
// SIM_BASIC: without the kinds of callables few programs use; only if the library refuses to compile them
template< int PAD, int ALIGN > struct FnRef : Fn< PAD, false, ALIGN > { explicit FnRef( int i) : Fn< PAD, false, ALIGN >( i) {} FnRef( FnRef const&) = default; FnRef( FnRef &&) = default;
#if defined(SIM_BASIC)
    Ctx operator()( Ctx && h) { return this->run( std::move( h) ); } };
#else
    Ctx operator()( Ctx && h) & { return this->run( std::move( h) ); }
    Ctx operator()( Ctx && h) && { fail( "object-lifetime", "the context function was called as an object about to be given up"); return this->run( std::move( h) ); } };
#endif
template< int PAD, int ALIGN > struct FnVal : Fn< PAD, true, ALIGN > { explicit FnVal( int i) : Fn< PAD, true, ALIGN >( i) {} FnVal( FnVal const&) = default; FnVal( FnVal &&) = default;
    Ctx operator()( Ctx h) { return this->run( std::move( h) ); } };
struct FnMoveOnly : Fn< 40, false, 8 > { explicit FnMoveOnly( int i) : Fn< 40, false, 8 >( i) {}
#if defined(SIM_BASIC)
    FnMoveOnly( FnMoveOnly const&) = default;
#else
    FnMoveOnly( FnMoveOnly const&) = delete;
#endif
    FnMoveOnly( FnMoveOnly &&) = default;
    Ctx operator()( Ctx && h) { return this->run( std::move( h) ); } };
// a context function that owns another context: whoever destroys the function object drops that context
struct FnOwn;
static FnOwn * fnown[MAXC];
#if ! defined(SIM_BASIC)
struct FnOwn : FnMoveOnly {
    int who; bool work; Ctx h;
    FnOwn( int i, int w, bool wk, Ctx && c) : FnMoveOnly( i), who( w), work( wk), h( std::move( c) ) {}
    FnOwn( FnOwn && o) noexcept : FnMoveOnly( std::move( o) ), who( o.who), work( o.work), h( std::move( o.h) ) { o.who = -1; }
    ~FnOwn() {
        if ( who < 0) return;
        env::HarnessScope hs;
        int w = who; who = -1;
        if ( expect_term_ctx >= 0) { static char grave[16][sizeof( Ctx)]; static int ng = 0; if ( ng < 16) new ( grave[ng++]) Ctx( std::move( h) ); return; }
        settle_end( id);
        int me = cur[T_()], d = -1, st_id = M[id].st, st_d = 0, ld[3] = { 0, 0, 0}; env::disarm();
        if ( ! h) fail( "handle-empty", "the handle stored in the function object of context %d became empty", id);
        if ( me == id) {        // has ended: its function object is destroyed by the context that drops it
            me = d = M[id].dropper; st_d = M[d].st; ld[0] = M[d].libdrop; ld[1] = M[d].libpin; ld[2] = M[d].libret;
            M[id].st = DONE; M[d].st = RUN; M[d].libdrop = 0; cur[T_()] = d;
            sim::cov( "drop by function object of a dropped context");
        } else sim::cov( "drop by function object of a finished context");
        ++ending;
        own_drop( me, w, std::move( h), work);
        --ending;
        if ( d >= 0) {
            if ( cur[T_()] != d) fail( "wrong-context", "the destruction of a function object ended in another context");
            M[id].st = st_id; M[d].st = st_d; M[d].libdrop = ld[0]; M[d].libpin = ld[1]; M[d].libret = ld[2]; cur[T_()] = id;
        }
    }
    Ctx operator()( Ctx && a) { fnown[id] = this; return this->run( std::move( a) ); }
};
#endif
static int fnptr_ids[4] = { -1, -1, -1, -1 };
static Ctx fn_ptr0( Ctx && h) { return body( fnptr_ids[0], std::move( h), nullptr, 1); }
static Ctx fn_ptr1( Ctx h) { return body( fnptr_ids[1], std::move( h), nullptr, 1); }
static Ctx fn_bound( int id, uint64_t can, Ctx && h) { if ( can != 0xB0B0000000000000ull + static_cast< uint64_t >( id) ) fail( "object-lifetime", "bound argument damaged"); return body( id, std::move( h), nullptr, 1); }

static int choose_successor( int me);
struct BodyGuard {
    int me; bool done; volatile char mark[8];
    explicit BodyGuard( int m) : me( m), done( false) { M[me].body_live = 1; mark[0] = 1; M[me].frame0 = mark; }
    void finish() { done = true; M[me].body_live = 0; M[me].frame0 = nullptr; }
    ~BodyGuard() {
        env::HarnessScope hs;
        if ( done) return;
        if ( expect_term_ctx == me) return;
        if ( cur[T_()] != me) fail( "dtor-context", "function of context %d unwinds while context %d is current", me, cur[T_()]);
        if ( ! M[me].unwinding) fail( "exception-unexpected", "function of context %d left by an exception nobody threw", me);
        finish();
        if ( M[me].argheld) { sim::cov( "unwinding with a handle left in the argument"); int e = M[me].argheld - 1; M[me].argheld = 0; lib_drop( me, e, -2); }
    }
};
static void arg_loop( int me, Ctx & arg);
static Ctx body( int me, Ctx && arg, const void * self, size_t) {
    if ( M[me].stack < 0 && pending_ctx == me) M[me].stack = pending_stack;
    pending_ctx = -1;
    woke( me, "entry");
    if ( M[me].started) fail( "started-twice", "function of context %d entered twice", me);
    if ( M[me].unwinding) fail( "started-dropped", "function of context %d runs although it was dropped before it started", me);
    M[me].started = 1;
    sim::ev( 8, static_cast< uint64_t >( me) );
    BodyGuard g( me);
    if ( M[me].stack >= 0) {
        Stk & k = K[M[me].stack];
        if ( ! k.lval && acopies[k.tag & 4095]) fail( "object-lifetime", "a stack allocator passed as an rvalue was copied instead of moved");
        if ( k.lval && ! acopies[k.tag & 4095]) fail( "object-lifetime", "a stack allocator passed as an lvalue was not copied");
    }
    if ( ! SEGMENTED && self && M[me].stack >= 0) {
        Stk & k = K[M[me].stack]; uintptr_t a = reinterpret_cast< uintptr_t >( self);
        if ( a < k.base || a >= (k.reserve ? k.res_lo : k.sp) ) fail( "stack-bounds", "function object lies outside the stack of context %d", me);
        int copies = 0; for ( int i = 0; i < nobj; ++i) { uintptr_t x = reinterpret_cast< uintptr_t >( O[i].a); copies += O[i].live && O[i].kind == 1 && O[i].id == me && x >= k.base && x < k.sp; }
        if ( copies != 1) fail( "object-lifetime", "%d copies of the context function live on the stack of context %d: it does not stay the object that was constructed", copies, me);
    }
    if ( ! SEGMENTED && ! ELSEWHERE && M[me].stack >= 0) {
        Stk & k = K[M[me].stack]; uintptr_t top = k.reserve ? k.res_lo : k.sp;
        if ( top - reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ) > 24576) fail( "stack-bounds", "context %d starts %zu bytes below the top of the stack it was given", me, static_cast< size_t >( top - reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ) ) );
    }
    if ( ELSEWHERE) {       // the system provides the stack: of the size that was asked for
        size_t want = ctx::stack_traits::default_size();
        if ( M[me].stack >= 0) { Stk & k = K[M[me].stack]; want = ( k.reserve ? k.res_lo : k.sp) - k.base; }
        if ( win_stack_size() < want) fail( "stack-bounds", "context %d runs on a stack of %zu bytes instead of %zu", me, win_stack_size(), want);
    }
    if ( ! SEGMENTED && ! ELSEWHERE && M[me].stack < 0 && pthread_equal( pthread_self(), T[T_()].pt) ) {
        // created without an allocator
        uintptr_t base; size_t size; int l = env::lib; env::lib = 0;
        if ( env::find_block( __builtin_frame_address( 0), base, size) ) {
            sim::cov( "default stack measured");
            if ( size < ctx::stack_traits::default_size() ) fail( "stack-bounds", "context %d was created without an allocator and runs on %zu bytes, less than the default size of a stack", me, size);
        }
        env::lib = l;
    }
    alignas( 32) volatile char al[32]; al[0] = 0;
    if ( reinterpret_cast< uintptr_t >( al) % 32) fail( "alignment", "over-aligned local is misaligned in context %d", me);
    if ( ( reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ) & 15) != 0) fail( "alignment", "stack is not ABI aligned at entry of context %d", me);
    bool keep = static_cast< long >( choose( 100) ) < knob( "p_keep", 25);
    if ( keep) arg_loop( me, arg);
    else {
        receive( me, std::move( arg) );
        if ( arg) fail( "handle-move", "moved-from handle is still valid");
    }
    frame( me, BASE);
    if ( M[me].ntok) fail( "harness-tok", "tokens left");
#if ! defined(SIM_BASIC)
    if ( fnown[me] && fnown[me]->who >= 0) {
        FnOwn * fo = fnown[me];
        if ( ! fo->h) fail( "handle-empty", "the handle stored in the function object of context %d became empty", me);
        if ( ( choose( 3) == 2 || ! knob( "fnkeep", 1) ) ) {
            int w = fo->who; fo->who = -1;
            if ( free_slots() > 2) put( w, std::move( fo->h) );
            else { Ctx tmp( std::move( fo->h) ); model_drop( me, w, [&tmp]{ Ctx x( std::move( tmp) ); }); }
        }
    }
#endif
    int s = choose_successor( me);
    Ctx r = take( s);
    g.finish();
    sim::ev( 9, static_cast< uint64_t >( me), static_cast< uint64_t >( s) ); sim::cov( "finish");
    if ( s != 0 && ! M[s].is_main) sim::cov( "finish into another context");
    M[me].pin = 0;
    if ( ! r) fail( "handle-empty", "successor handle is empty");
    if ( M[me].argheld) {
        int e = M[me].argheld - 1; M[me].argheld = 0; sim::cov( "finish with a handle left in the argument");
        if ( ! arg) fail( "handle-empty", "a handle left in the argument became empty");
        M[me].finto = s + 1; M[s].finfrom = me + 1;
        lib_drop( me, e, -2);
    } else model_switch( me, s, DONE, -1, 2);
    env::lib = 1;
    return r;
}
static int choose_successor( int me) {
    int t = T_();
    if ( drain) { int m = T[t].main; if ( m != me && resumable( m, t) && M[m].st == SUSP) return m; }
    int s = pick( resumable, me);
    if ( s < 0) fail( "harness-stuck", "no successor for context %d", me);
    return s;
}

// ---------------------------------------------------------------- allocators ----------------------
struct Cfg { int alloc, fn, lval; long size; int reserve; };
// huge stacks are filled at their ends only
static void fill( uintptr_t lo, uintptr_t hi, int v) {
    if ( hi - lo < ( size_t( 64) << 20) ) { memset( reinterpret_cast< void * >( lo), v, hi - lo); return; }
    memset( reinterpret_cast< void * >( lo), v, 8192); memset( reinterpret_cast< void * >( hi - 196608), v, 196608);
}
struct PlainAlloc;
template< typename A > struct IsProt { enum { value = 0 }; };
template< typename A > struct IsLib { enum { value = 1 }; };
template<> struct IsLib< PlainAlloc > { enum { value = 0 }; };
static uintptr_t usable_from( uintptr_t lo, uintptr_t sp) { while ( lo < sp && env::page_prot( reinterpret_cast< void * >( lo) ) == PROT_NONE) lo += 4096; return lo; }
template<> struct IsProt< ctx::protected_fixedsize_stack > { enum { value = 1 }; };
static size_t req_size = 0;      // size the allocator was configured with, if it has one
static void guard_check( uintptr_t base, uintptr_t sp, size_t want) {
    (void) base;
    uintptr_t p = ( sp - 1) & ~uintptr_t( 4095); size_t usable = sp - p;
    while ( env::page_prot( reinterpret_cast< void * >( p) ) == ( PROT_READ | PROT_WRITE) ) { p -= 4096; usable += 4096; }
    usable -= 4096;
    if ( env::page_prot( reinterpret_cast< void * >( p) ) != PROT_NONE) fail( "guard-page", "no inaccessible page directly below a protected stack");
    if ( usable < want) fail( "guard-page", "protected stack has %zu usable bytes instead of at least %zu", usable, want);
}
template< typename A > struct Track {
    A a; int tag, state; uint64_t can; int fail_nth;
    enum { LIVE = 0x11FE, MOVED = 0x30BED, DEAD = 0xDEAD };
    Track( A && aa, int t) : a( std::move( aa) ), tag( t), state( LIVE), can( 0xA110C000u + static_cast< unsigned >( t) ), fail_nth( 0) { obj_add( this, tag, 2); }
    Track( Track const& o) : a( o.a), tag( o.tag), state( o.state), can( o.can), fail_nth( 0) { if ( o.state != LIVE) fail( "object-lifetime", "stack allocator copied from a dead or moved-from object"); ++acopies[tag & 4095]; obj_add( this, tag, 2); }
    Track( Track && o) noexcept : a( std::move( o.a) ), tag( o.tag), state( o.state), can( o.can), fail_nth( 0) { if ( o.state != LIVE) fail( "object-lifetime", "stack allocator moved from a dead or moved-from object"); o.state = MOVED; obj_add( this, tag, 2); }
    ~Track() { obj_del( this, tag, 2); state = DEAD; }
    void ok() const { if ( state != LIVE || can != 0xA110C000u + static_cast< unsigned >( tag) ) fail( "object-lifetime", "stack allocator used while dead or moved-from"); }
    ctx::stack_context allocate() {
        ok();
        if ( env::should_fail( env::F_ALLOCATOR) ) throw std::bad_alloc();
        ctx::stack_context s = a.allocate();
        env::HarnessScope hs;
        if ( nstk >= MAXSTK) fail( "harness-stk", "too many stacks");
        Stk & k = K[nstk]; k.sp = reinterpret_cast< uintptr_t >( s.sp); k.size = s.size; k.base = k.sp - s.size; k.tag = tag; k.live = 1; k.who = pending_ctx;
        k.kind = 0; k.reserve = 0; k.res_lo = 0; k.lval = req_lval;
        for ( int i = 0; i < nstk; ++i) if ( K[i].live && K[i].base < k.sp && k.base < K[i].sp) fail( "stack-overlap", "two live stacks overlap");
        if ( ! SEGMENTED) {
            uintptr_t lo = k.base; while ( lo < k.sp && env::page_prot( reinterpret_cast< void * >( lo) ) == PROT_NONE) lo += 4096;
            fill( lo, k.sp, 0xCD);
        }
        if ( req_size && k.size + ( SEGMENTED ? 4096 : 0) < req_size)      // the runtime takes a header from a segment
            fail( "stack-bounds", "a stack of %zu bytes was handed out although %zu were asked for", k.size, req_size);
        if ( static_cast< int >( IsProt< A >::value) ) guard_check( k.base, k.sp, req_size);
        if ( static_cast< int >( IsLib< A >::value) ) vg::handed_out( k.base, usable_from( k.base, k.sp), k.sp, "after allocation");
        pending_stack = nstk++;
        return s;
    }
    void deallocate( ctx::stack_context & s) noexcept {
        env::HarnessScope hs;
        ok();
        for ( int i = nstk; i-- > 0;) {
            Stk & k = K[i];
            if ( k.tag == tag && k.sp == reinterpret_cast< uintptr_t >( s.sp) && k.size == s.size) {
                if ( ! k.live) continue;
                uintptr_t here = reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) );
                if ( ! SEGMENTED && here >= k.base && here < k.sp) fail( "stack-in-use", "stack of context %d given back while executing on it", k.who);
                int w = k.who;
                if ( w >= 0 && ! M[w].body_live) settle_end( w);
                if ( w >= 0 && ( M[w].body_live || M[w].ntok) ) fail( "stack-in-use", "stack of context %d given back while its function is still running", w);
                if ( w >= 0 && w != pending_ctx && M[w].st != DONE && ! M[w].unwinding && M[w].st != FREE) fail( "stack-in-use", "stack of context %d given back although it can still run", w);
                if ( k.reserve)
                    for ( uintptr_t p = k.res_lo; p < k.sp; ++p) if ( *reinterpret_cast< unsigned char * >( p) != 0x77) fail( "reserved-area", "memory reserved by the caller on the stack of context %d was overwritten", w);
                k.live = 0; k.kind = 3;
                releasing( k.base, k.size, "deallocate");
                if ( ! SEGMENTED) { uintptr_t lo = k.base; while ( lo < k.sp && env::page_prot( reinterpret_cast< void * >( lo) ) == PROT_NONE) lo += 4096;
                    fill( lo, k.sp, 0xDD); }
#if defined(BOOST_USE_SEGMENTED_STACKS)
                int so = env::segment_owner( k.base); if ( so < 0) fail( "stack-description", "a segmented stack is described as memory that is none of its segments");
                if ( env::segments_owned( so) > 1) sim::cov( "grown segmented stack released");
#endif
                if ( static_cast< int >( IsLib< A >::value) ) vg::handed_out( k.base, usable_from( k.base, k.sp), k.sp, "before release");
                uintptr_t vb = k.base, vs = k.sp;
                env::lib = 1; a.deallocate( s); env::lib = 0; errno = 77;
                vg::given_back( vb, vs, "after release");
#if defined(BOOST_USE_SEGMENTED_STACKS)
                if ( env::segments_owned( so) ) fail( "stack-release", "%d segments of a released segmented stack remain mapped", env::segments_owned( so) );
#endif
                return;
            }
        }
        for ( int i = 0; i < nstk; ++i) if ( K[i].sp == reinterpret_cast< uintptr_t >( s.sp) && K[i].tag == tag) {
            if ( K[i].size != s.size) fail( "stack-release", "stack of context %d given back with another size", K[i].who);
            fail( "stack-twice", "stack of context %d given back twice", K[i].who);
        }
        fail( "stack-release", "a stack was given to an allocator it did not come from");
    }
};
struct PlainAlloc {            // a user written stack allocator
    size_t size;
    size_t off() const { return size >> 31 ? 0 : size & 7; }        // need not be aligned at either end
    ctx::stack_context allocate() { void * p = size >> 31 ? env::huge_map( size) : ::malloc( size + off() ); if ( ! p) throw std::bad_alloc(); ctx::stack_context s; s.size = size; s.sp = static_cast< char * >( p) + off() + size; return s; }
    void deallocate( ctx::stack_context & s) noexcept { char * p = static_cast< char * >( s.sp) - s.size - off(); if ( size >> 31) env::huge_unmap( p, s.size); else ::free( p); }
};

// ---------------------------------------------------------------- operations -----------------------
struct RCall { Ctx * h; Ctx * r; };
static void rc_resume( void * p) { RCall * c = static_cast< RCall * >( p); *c->r = std::move( *c->h).resume(); }
static uint64_t rpat = 0;
// resume through a frame whose callee saved registers all hold known values
static void __attribute__((noinline)) resume_via_regs( Ctx & h, Ctx & r) {
    RCall c; c.h = & h; c.r = & r;
    uint64_t pat[6]; rpat += 0x1111; for ( int i = 0; i < 6; ++i) pat[i] = 0xAB00CD0000000000ull + rpat * 16 + static_cast< uint64_t >( i);
    unsigned bad = sim_regcall( rc_resume, & c, pat);
    if ( bad) fail( "registers", "callee saved registers changed over a resume (mask %02x: rbx rbp r12..r15)", bad);
}
#define CATCH_SITE( me, save, c) catch ( SimEx & e) { if ( ! caught_here( me, e, save) ) throw; c.id = e.id; c.who = e.who; c.h = std::move( e.h); e.who = -1; }

static void op_resume( int me) {
    int to = pick( resumable);
    if ( to < 0) return;
    int how = static_cast< int >( choose( 4) );
    sim::cov( M[to].st == UNSTARTED ? "resume unstarted" : "resume");
    if ( M[to].st == SUSP && M[to].created_thr != T_() ) sim::cov( "resume on foreign thread");
    Ctx h = take( to); Ctx r; Caught c; int save = M[me].sites;
    Pat p( static_cast< uint64_t >( to) * 31 + switches);
    model_switch( me, to, SUSP, me, 1);
    M[me].sites++;
    try {
        step_window(); env::lib = 1;
        if ( how == 1) resume_via_regs( h, r);
#if ! defined(API_FIBER)
        else if ( how == 2) r = h.resume();
#endif
        else r = std::move( h).resume();
        env::step_off(); env::lib = 0; M[me].sites = save;
    } CATCH_SITE( me, save, c)
    woke( me, "resume");
    p.check( me);
    if ( h) fail( "handle-oneshot", "a handle is still valid after it was resumed");
    if ( c.id) { if ( r) fail( "handle-valid", "resume threw but also returned"); after_catch( me, c); return; }
    if ( M[me].expect_exc) fail( "exception-lost", "an exception thrown into context %d did not arrive", me);
    receive( me, std::move( r) );
}
// the context function works on the handle where the library passed it, and may leave one there
static void arg_keep( int me, Ctx & arg) {
    int e = M[me].expect_ret; 
    if ( e >= 0 && ! M[e].is_main && ! M[e].pin && ! owns_transitively( e, me) ) {
        M[me].expect_ret = -2;
        if ( ! arg) fail( "handle-empty", "a handle that must denote context %d is empty", e);
        sim::ev( 2, static_cast< uint64_t >( me), static_cast< uint64_t >( e) );
        M[me].argheld = e + 1; M[e].owner = me;
    } else {
        receive( me, std::move( arg) );
        if ( arg) fail( "handle-move", "moved-from handle is still valid");
    }
}
static void arg_loop( int me, Ctx & arg) {
    arg_keep( me, arg);
    for ( int n = static_cast< int >( choose( 5) ); n > 0 && M[me].argheld && ! drain; --n) {
        int to = M[me].argheld - 1, t = T_(); Caught c; int save = M[me].sites;
        if ( M[to].thr != t && ! knob( "migrate", 1) ) break;
        M[me].argheld = 0; M[to].owner = -1; sim::cov( "resume of the argument in place");
        Pat p( static_cast< uint64_t >( to) * 43 + switches);
        model_switch( me, to, SUSP, me, 1);
        M[me].sites++;
        try {
            step_window(); env::lib = 1;
            arg = std::move( arg).resume();
            env::step_off(); env::lib = 0; M[me].sites = save;
        } CATCH_SITE( me, save, c)
        woke( me, "resume of the argument");
        p.check( me);
        if ( c.id) { if ( arg) fail( "handle-oneshot", "a handle is still valid after it was resumed"); after_catch( me, c); return; }
        if ( M[me].expect_exc) fail( "exception-lost", "an exception thrown into context %d did not arrive", me);
        arg_keep( me, arg);
    }
}
#if defined(API_FIBER)
# define RW( h, f) std::move( h).resume_with( f)
#else
# define RW( h, f) ( rwl ? h.resume_with( f) : std::move( h).resume_with( f) )
#endif
template< int PAD, int ALIGN = 8 > static __attribute__((noinline)) Ctx do_with( Ctx & h, int id, int lval, bool rwl) {
    (void) rwl;
    Inj< PAD, ALIGN > f( id);
    if ( lval == 1) {
        Ctx r = RW( h, f); env::lib = 0;
        if ( f.state != Inj< PAD, ALIGN >::LIVE) fail( "object-lifetime", "the caller's own injected function object was moved from");
        return r;
    }
#if ! defined(SIM_BASIC)
    if ( lval == 2) { Inj< PAD, ALIGN > const& g = f; return RW( h, g); }
#endif
    f.moved_in = true; return RW( h, std::move( f) );
}
// an injected function that owns another context, which is dropped with the last copy of the function object
static bool holdable( int who, int t);
struct OwnBox {
    int id, who; bool work; Ctx h;
    OwnBox( int i, int w, bool wk, Ctx && c) : id( i), who( w), work( wk), h( std::move( c) ) {}
    OwnBox( OwnBox const&) = delete;
    ~OwnBox() {
        env::HarnessScope hs;
        if ( expect_term_ctx >= 0) { static char grave[16][sizeof( Ctx)]; static int ng = 0; if ( ng < 16) new ( grave[ng++]) Ctx( std::move( h) ); return; }
        settle( I[id].target);
        int me = cur[T_()];
        if ( ! h) fail( "handle-empty", "the handle stored in an injected function became empty");
        sim::cov( std::uncaught_exception() ? "drop by injected function object during unwinding" : "drop by injected function object");
        env::disarm(); own_drop( me, who, std::move( h), work);
    }
};
struct InjOwn { int id; std::shared_ptr< OwnBox > b; Ctx operator()( Ctx && h) { env::lib = 0; std::shared_ptr< OwnBox > const& q = b; if ( ! q || ! q->h) fail( "object-lifetime", "captured state damaged"); return inj_run( id, std::move( h) ); } };
static void op_with( int me) {
    int to = pick( resumable);
    if ( to < 0 || ninj >= MAXINJ) return;
    int kind = static_cast< int >( choose( IK_N) ); if ( ! ( knob( "ikinds", 0x1ff) >> kind & 1) ) kind = IK_IDENT;
    int shape = static_cast< int >( choose( 7) ), lval = static_cast< int >( choose( 3) ); bool rwl = choose( 2) == 1;
    if ( shape == 3 && inj_fp_id >= 0) shape = 0;
    if ( SEGMENTED && shape == 2) shape = 1;
    if ( UCTX && __cplusplus < 201703L && shape == 6) shape = 0;      // no aligned allocation before C++17
    int id = ninj++;
    I[id] = Inject{ kind, to, me, 0, 0 };
    int fk = 0, fnth = 0;
    if ( static_cast< long >( choose( 1000) ) < knob( "p_fault_with", 0) ) {
        uint32_t r = choose( 2); fk = r ? env::F_COPY : env::F_NEW | env::F_MALLOC; fnth = static_cast< int >( choose( 3) );
    }
    int own = -1;
    if ( shape == 5 && ! fk && choose( 4) ) { own = pick( holdable, to); if ( own >= 0 && ( own == to || owns_transitively( own, me) || owns_transitively( own, to) ) ) own = -1; }
    sim::cov( M[to].st == UNSTARTED ? "inject into unstarted" : "inject into suspended");
    Ctx h = take( to); Ctx r; Caught c; int save = M[me].sites, save_st = M[to].st, save_thr = M[to].thr, save_er = M[to].expect_ret; bool refused = false;
    Pat p( static_cast< uint64_t >( to) * 37 + switches);
    InjOwn io = { id, nullptr };
    if ( own >= 0) { io.b = std::make_shared< OwnBox >( id, own, static_cast< long >( choose( 100) ) < knob( "p_work", 0), take( own) ); M[own].owner = to; sim::cov( "handle owned by an injected function"); }
    std::function< Ctx( Ctx &&) > sf;
    if ( shape == 4) { uint64_t can = 0xABCD + static_cast< uint64_t >( id); char filler[40]; memset( filler, id, 40);
        sf = [id, can, filler]( Ctx && x) -> Ctx { if ( can != 0xABCD + static_cast< uint64_t >( id) || filler[39] != static_cast< char >( id) ) fail( "object-lifetime", "captured state damaged"); return inj_run( id, std::move( x) ); }; }
    model_switch( me, to, SUSP, me, 4);
    M[to].pend = id + 1;
    M[me].sites++;
    uint64_t sw = switches; op_kind = 2; env::arm( fk, fnth);
    try {
        step_window(); env::lib = 1;
        switch ( shape) {
        case 0: r = do_with< 8 >( h, id, lval, rwl); break;
        case 1: r = do_with< 100 >( h, id, lval, rwl); break;
        case 2: r = do_with< 2000 >( h, id, lval, rwl); break;
        case 6: r = do_with< 40, 64 >( h, id, lval, rwl); break;
        case 3: inj_fp_id = id; r = RW( h, inj_fnptr); break;
        case 4: r = lval ? RW( h, sf) : RW( h, std::move( sf) ); break;
        default: if ( own >= 0) { r = RW( h, std::move( io) ); break; } r = RW( h, ( [id]( Ctx && x) -> Ctx { return inj_run( id, std::move( x) ); }) ); break;
        }
        env::step_off(); env::lib = 0; M[me].sites = save;
    } CATCH_SITE( me, save, c)
    catch ( std::bad_alloc const&) { refused = true; env::lib = 0; }
    catch ( CopyEx const& e) { refused = true; env::lib = 0; }
    if ( refused) {
        env::step_off();
        int fired = env::disarm();
        if ( ! fired || ! fk) fail( "exception-unexpected", "resume_with reported a failure that was not injected");
        if ( switches != sw || I[id].ran || cur[T_()] != to) fail( "failed-inject", "the failure surfaced after control had been transferred");
        int t = T_();
        M[me].sites = save; M[me].st = RUN; M[to].st = save_st; M[to].thr = save_thr; M[to].expect_ret = save_er; M[to].pend = 0; M[me].expect_ret = -2; cur[t] = me;
        if ( ! h) fail( "failed-inject", "the target's handle was lost although the injection failed");
        put( to, std::move( h) );
        sim::cov( fired == env::F_COPY ? "inject refused (copy)" : "inject refused (memory)");
        sim::ev( 10, static_cast< uint64_t >( me), static_cast< uint64_t >( to) );
        if ( shape == 3) inj_fp_id = -1;
        fp_check( me, "refused inject"); san_woke( me);
        return;
    }
    woke( me, "resume_with");
    p.check( me);
    if ( h) fail( "handle-oneshot", "a handle is still valid after it was resumed");
    if ( c.id) { after_catch( me, c); return; }
    if ( M[me].expect_exc) fail( "exception-lost", "an exception thrown into context %d did not arrive", me);
    receive( me, std::move( r) );
}

template< typename A, typename F > static Ctx start( A && a, F && f) {
#if defined(API_FIBER)
    return Ctx( std::allocator_arg, std::forward< A >( a), std::forward< F >( f) );
#else
    return ctx::callcc( std::allocator_arg, std::forward< A >( a), std::forward< F >( f) );
#endif
}
template< typename A, typename F > static Ctx start_pre( ctx::preallocated p, A && a, F && f) {
#if defined(API_FIBER)
    return Ctx( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f) );
#else
    return ctx::callcc( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f) );
#endif
}
template< typename F > static Ctx start_def( F && f) {
#if defined(API_FIBER)
    return Ctx( std::forward< F >( f) );
#else
    return ctx::callcc( std::forward< F >( f) );
#endif
}
static int alloc_tag = 0;
// value category of the allocator: shared pools are copied from a long-lived allocator
template< typename A, typename F > static Ctx with_alloc( Cfg const& g, A && raw, F && f) {
    typedef Track< typename std::decay< A >::type > TA;
    TA ta( std::move( raw), ++alloc_tag); acopies[alloc_tag & 4095] = 0; req_lval = g.lval ? 1 : 0;
    if ( g.lval) {
        Ctx r = start( ta, std::forward< F >( f) ); env::lib = 0;
        ta.ok();
        return r;
    }
    return start( std::move( ta), std::forward< F >( f) );
}
template< typename A, typename F > static Ctx with_pre( Cfg const& g, A && raw, F && f) {
    typedef Track< typename std::decay< A >::type > TA;
    TA ta( std::move( raw), ++alloc_tag); acopies[alloc_tag & 4095] = 0; req_lval = g.lval ? 1 : 0;
    ctx::stack_context sc = ta.allocate();
    int lib = env::lib; env::lib = 0;
    Stk & k = K[pending_stack]; k.reserve = g.reserve; k.res_lo = k.sp - static_cast< uintptr_t >( g.reserve);
    memset( reinterpret_cast< void * >( k.res_lo), 0x77, static_cast< size_t >( g.reserve) );
    env::lib = lib;
    ctx::preallocated pre( reinterpret_cast< void * >( k.res_lo), sc.size - static_cast< size_t >( g.reserve), sc);
    if ( g.lval) { Ctx r = start_pre( pre, ta, std::forward< F >( f) ); env::lib = 0; ta.ok(); return r; }
    return start_pre( pre, std::move( ta), std::forward< F >( f) );
}
static ctx::pooled_fixedsize_stack * pools[3];
template< typename F > static Ctx with_cfg( Cfg const& g, F && f) {
    req_size = SEGMENTED ? static_cast< size_t >( g.size) : 0;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    if ( g.alloc == 0) return start_def( std::forward< F >( f) );
    if ( g.alloc == 5) return with_pre( g, ctx::segmented_stack( static_cast< size_t >( g.size) ), std::forward< F >( f) );
    return with_alloc( g, ctx::segmented_stack( static_cast< size_t >( g.size) ), std::forward< F >( f) );
#else
    switch ( g.alloc) {
    case 0: return start_def( std::forward< F >( f) );
    case 1: { PlainAlloc p = { static_cast< size_t >( g.size) }; return with_alloc( g, std::move( p), std::forward< F >( f) ); }
    case 2: req_size = static_cast< size_t >( g.size); return with_alloc( g, ctx::fixedsize_stack( static_cast< size_t >( g.size) ), std::forward< F >( f) );
    case 3: req_size = static_cast< size_t >( g.size); return with_alloc( g, ctx::protected_fixedsize_stack( static_cast< size_t >( g.size) ), std::forward< F >( f) );
    case 4: { ctx::pooled_fixedsize_stack p( *pools[g.size % 3]); return with_alloc( g, std::move( p), std::forward< F >( f) ); }
    default: { PlainAlloc p = { static_cast< size_t >( g.size) }; return with_pre( g, std::move( p), std::forward< F >( f) ); }
    }
#endif
}
// value category of the function
template< typename F > static __attribute__((noinline)) Ctx with_fn( Cfg const& g, int id) {
    F f( id);
    if ( g.lval & 1) {
        Ctx r = with_cfg( g, f); env::lib = 0;
        f.ok();
        if ( fn_copies[id] < 1) fail( "object-lifetime", "an lvalue context function was not copied");
        return r;
    }
    return with_cfg( g, std::move( f) );
}
static bool holdable( int who, int t);
static void op_create( int me) {
    int shape = static_cast< int >( choose( 13) ); Cfg g;
    g.fn = shape; g.alloc = static_cast< int >( choose( 6) ); g.lval = static_cast< int >( choose( 2) );
    static const int sizes[8] = { 65536, 49152, 65536 + 16, 40000, 131072, 36864 + 8, 50001, 65535 };
    g.size = sizes[choose( 8)]; g.reserve = static_cast< int >( choose( 5) ); static const int res[5] = { 0, 16, 64, 1000, 4096 + 24 }; g.reserve = res[g.reserve];
    { uint32_t odd = choose( 8), z = choose( 100000), v = choose( 9000); if ( odd >= 4) { g.size = 36864 + static_cast< long >( z); if ( odd == 7 && z % 8 == 1) g.size += 1 << 20; if ( g.size > 50000) g.reserve = static_cast< int >( v); } }
    g.size += EXTRA;
    bool huge = ( g.alloc == 1 || g.alloc == 5) && choose( 300) == 299;
#if defined(SIM_SHS)
    huge = false;       // the shadow stack of such a stack would be as large
    if ( g.size & 1) g.size += 200000;
#endif
    if ( ! ( knob( "allocs", 0xff) >> g.alloc & 1) ) g.alloc = 1;
    if ( ! ( knob( "fns", 0xffff) >> shape & 1) ) shape = 0;
    if ( nctx >= MAXC || nstk >= MAXSTK - 2 || free_slots() < 4) return;
    long liv = 0; for ( int i = 0; i < nctx; ++i) liv += M[i].st == SUSP || M[i].st == UNSTARTED || M[i].st == RUN || M[i].st == BLOCKED;
    if ( liv > knob( "maxlive", 8) ) return;
    int fk = 0, fnth = 0, ferr = 0;
    if ( static_cast< long >( choose( 1000) ) < knob( "p_fault_create", 0) ) {
        static const int ks[8] = { env::F_COPY, env::F_NEW, env::F_GETCONTEXT, env::F_MALLOC | env::F_NEW, env::F_MMAP, env::F_MPROTECT, env::F_ALLOCATOR, env::F_MALLOC | env::F_NEW | env::F_MMAP | env::F_MPROTECT | env::F_GETCONTEXT | env::F_ALLOCATOR | env::F_COPY };
        fk = ks[choose( 8)] & static_cast< int >( knob( "fkinds", 0xff) ); fnth = static_cast< int >( choose( 3) ); static const int errs[3] = { EAGAIN, ENOMEM, EPERM }; ferr = errs[choose( 3)];
    }
    if ( huge && ! fk && ! SEGMENTED && g.alloc != 0) { g.size += 1l << 32; sim::cov( "stack of more than 4 GB"); }
    if ( fk == env::F_COPY) { g.lval = 1; fnth = 0; if ( shape > 2 && shape < 8) shape = 0; } else if ( fk == env::F_NEW && choose( 2) ) { shape = 6; g.lval = 1; fnth = 0; }      // the copy of the function fails
    int own = -1; bool own_work = false; Ctx owned;
#if ! defined(SIM_BASIC)
    if ( shape == 3 && ! fk && choose( 4) ) {
        own = pick( holdable);
        if ( own >= 0 && owns_transitively( own, me) ) own = -1;
        if ( own >= 0) { owned = take( own); own_work = static_cast< long >( choose( 100) ) < knob( "p_work", 0); sim::cov( "handle owned by a function object"); }
    }
#endif
    int id = nctx++;
    memset( & M[id], 0, sizeof( MCtx) ); fn_copies[id] = fn_moves[id] = 0; fnown[id] = nullptr;
    if ( own >= 0) M[own].owner = id;
    M[id].st = UNSTARTED; M[id].thr = M[id].created_thr = T_(); M[id].owner = -1; M[id].stack = -1; M[id].expect_ret = -2; M[id].mx = M[me].mx; M[id].cw = M[me].cw; M[id].guard = M[me].guard;
    pending_ctx = id; pending_stack = -1;
    if ( shape == 4) { if ( fnptr_ids[0] >= 0) shape = 0; else fnptr_ids[0] = id; }
    if ( shape == 5) { if ( fnptr_ids[1] >= 0) shape = 0; else fnptr_ids[1] = id; }
    sim::ev( 11, static_cast< uint64_t >( me), static_cast< uint64_t >( id) );
    Ctx r; Caught c; int save = M[me].sites; bool refused = false; int err = 0;
    Pat p( static_cast< uint64_t >( id) * 41 + switches);
    size_t lb = env::live_blocks(), mp = env::mapped_pages(); int sl = stacks_live(), ot = obj_total( 2);
#if ! defined(API_FIBER)
    model_switch( me, id, SUSP, me, 5);
#endif
    M[me].sites++;
    uint64_t sw = switches;
    std::function< Ctx( Ctx &&) > sf; FnRef< 24, 8 > * rf = nullptr; alignas( 16) char rfbuf[sizeof( FnRef< 24, 8 >)]; (void) rf;
    if ( shape == 6) { uint64_t can = 0xAFAFull + static_cast< uint64_t >( id); char fill[48]; memset( fill, id, 48);
        sf = [id, can, fill]( Ctx && x) -> Ctx { if ( can != 0xAFAFull + static_cast< uint64_t >( id) || fill[47] != static_cast< char >( id) ) fail( "object-lifetime", "captured state damaged"); Ctx q = body( id, std::move( x), nullptr, 1); return q; };
        lb = env::live_blocks(); }
    (void) rfbuf;
    op_kind = 1; op_alloc = g.alloc; env::arm( fk, fnth, ferr);
    try {
        step_window(); env::lib = 1;
        switch ( shape) {
        case 0: r = with_fn< FnRef< 24, 8 > >( g, id); break;
        case 1: r = with_fn< FnVal< 200, 8 > >( g, id); break;
        case 2: r = with_fn< FnRef< 1500, 64 > >( g, id); break;
        case 3:
#if ! defined(SIM_BASIC)
            if ( own >= 0) { FnOwn f( id, own, own_work, std::move( owned) ); r = with_cfg( g, std::move( f) ); break; }
#endif
            { FnMoveOnly f( id); r = with_cfg( g, std::move( f) ); break; }
#if defined(SIM_BASIC)
        case 4: { fnptr_ids[0] = -1; r = with_fn< FnRef< 24, 8 > >( g, id); break; }
#else
        case 4: r = with_cfg( g, fn_ptr0); break;
#endif
        case 5: r = with_cfg( g, & fn_ptr1); break;
        case 6: if ( g.lval) r = with_cfg( g, sf); else r = with_cfg( g, std::move( sf) ); break;
        case 7: r = with_cfg( g, std::bind( fn_bound, id, 0xB0B0000000000000ull + static_cast< uint64_t >( id), std::placeholders::_1) ); break;
        case 8: r = with_fn< FnVal< 3, 128 > >( g, id); break;
        case 10: r = with_fn< FnRef< 6000, 16 > >( g, id); break;
        case 11: r = with_fn< FnRef< 300, 256 > >( g, id); break;
#if ! defined(SIM_BASIC)
        case 12: { FnRef< 24, 16 > const f( id); r = with_cfg( g, f); env::lib = 0; f.ok(); if ( fn_copies[id] < 1) fail( "object-lifetime", "an lvalue context function was not copied"); break; }
#endif
        default: r = with_cfg( g, [id]( Ctx && x) -> Ctx { Ctx q = body( id, std::move( x), nullptr, 1); return q; }); break;
        }
        env::step_off(); env::lib = 0; M[me].sites = save;
    } CATCH_SITE( me, save, c)
    catch ( std::system_error const& e) { refused = true; err = e.code().value(); env::lib = 0; }
    catch ( std::bad_alloc const&) { refused = true; env::lib = 0; }
    catch ( CopyEx const&) { refused = true; env::lib = 0; }
    if ( shape == 6) { if ( refused && g.lval && ! sf) fail( "object-lifetime", "the caller's context function is gone after a failed creation"); sf = nullptr; }
    if ( refused) {
        env::step_off();
        int fired = env::disarm();
        if ( ! fk || ! fired) fail( "exception-unexpected", "creation reported a failure that was not injected");
        if ( fired == env::F_GETCONTEXT && err != ferr) fail( "failed-create", "creation failed with error %d instead of %d", err, ferr);
        if ( fired != env::F_GETCONTEXT && err) fail( "failed-create", "exhausted memory reported as a system error");
        int t = T_();
        M[me].sites = save; M[me].st = RUN; cur[t] = me; M[me].expect_ret = -2;
        M[id].st = FREE;
        if ( switches != sw || M[id].started) fail( "failed-create", "a context ran although its creation failed");
        // a preallocated stack belongs to the caller until the context owns it: the library took it over with the call
        if ( pending_stack >= 0 && K[pending_stack].live) {
            if ( fired == env::F_ALLOCATOR || g.alloc != 5 || fired == env::F_GETCONTEXT) fail( "failed-create", "the stack obtained for a failed creation was not given back");
        }
        if ( stacks_live() != sl) fail( "failed-create", "a stack leaked from a failed creation");
        size_t lb2 = env::live_blocks() + ( shape == 6 ? 1u : 0u);
        if ( g.alloc != 4 && lb2 > lb) fail( "failed-create", "%zu heap blocks leaked from a failed creation", lb2 - lb);
        if ( env::mapped_pages() != mp) fail( "failed-create", "mapped pages leaked from a failed creation");
        if ( obj_count( id, 1) ) fail( "failed-create", "a copy of the context function outlives its failed creation");
        if ( obj_total( 2) != ot) fail( "failed-create", "a copy of the stack allocator outlives a failed creation");
        for ( int i = 0; i < 2; ++i) if ( fnptr_ids[i] == id) fnptr_ids[i] = -1;
        p.check( me); fp_check( me, "failed create"); san_woke( me);
        sim::cov( fired == env::F_GETCONTEXT ? "creation refused (getcontext)" : fired == env::F_COPY ? "creation refused (copy)" : "creation refused (memory)");
        sim::ev( 12, static_cast< uint64_t >( me) );
        return;
    }
#if defined(API_FIBER)
    env::step_off();
    int fired = env::disarm();
    M[me].sites = save;
    if ( cur[T_()] != me) fail( "wrong-context", "creation switched context");
    if ( fired) late_fault( fired);
    M[id].stack = pending_stack; pending_ctx = -1;
    if ( c.id) fail( "exception-unexpected", "creation threw");
    if ( ! r) fail( "handle-empty", "creation returned an empty handle");
    if ( M[id].started) fail( "started-early", "context started before it was resumed");
    p.check( me); fp_check( me, "create");
    put( id, std::move( r) );
#else
    woke( me, "callcc"); p.check( me);
    if ( c.id) { after_catch( me, c); return; }
    if ( M[me].expect_exc) fail( "exception-lost", "an exception thrown into context %d did not arrive", me);
    receive( me, std::move( r) );
#endif
    if ( shape != 12 && ! ( g.lval & 1) && fn_copies[id]) fail( "object-lifetime", "an rvalue context function was copied instead of moved");
}
static void op_drop( int me) {
    int w = pick( droppable); int how = static_cast< int >( choose( 5) );
    if ( w < 0) {
        for ( int i = 0; i < NS; ++i) if ( S[i].dead) { env::LibScope l; Ctx t( std::move( S[i].h) ); S[i].dead = false; sim::cov( "drop dead handle"); break; }
        return;
    }
    int o = how == 3 ? pick( droppable, w) : -1;
    Ctx h = take( w);
    if ( how == 4) { sim::cov( "drop via swap"); Ctx e; e.swap( h); if ( h || ! e) fail( "handle-swap", "swap"); model_drop( me, w, [&e]{ Ctx x( std::move( e) ); }); return; }
    if ( how == 1) { model_drop( me, w, [&h]{ h = Ctx(); }); if ( h) fail( "handle-valid", "assigned-from-empty handle is valid"); sim::cov( "drop via assignment"); return; }
    if ( how == 3 && o >= 0) {
        Ctx h2 = take( o);
        model_drop( me, w, [&h,&h2]{ h = std::move( h2); });
        if ( h2) fail( "handle-move", "moved-from handle is still valid");
        sim::cov( "drop via move assignment"); put( o, std::move( h) ); return;
    }
    model_drop( me, w, [&h]{ Ctx x( std::move( h) ); });
    if ( h) fail( "handle-move", "moved-from handle is still valid");
}
struct Buf : std::streambuf { char b[128]; Buf() { setp( b, b + 127); } const char * str() { *pptr() = 0; return b; } };
static void op_handle( int) {
    int k = static_cast< int >( choose( 7) ), i = static_cast< int >( choose( NS) ), j = static_cast< int >( choose( NS) );
    Slot * pa = & S[i], * pb = & S[j];
    if ( k >= 5) { int n = 0; for ( int u = 0; u < nth; ++u) n += T[u].mslot.who >= 0;      // handles of the threads' own contexts
        if ( n) { for ( Slot ** q : { & pa, & pb }) if ( choose( 2) ) { int v = static_cast< int >( choose( static_cast< uint32_t >( n) ) ); for ( int u = 0; u < nth; ++u) if ( T[u].mslot.who >= 0 && v-- == 0) *q = & T[u].mslot; } } }
    if ( pa == pb) j = i; else if ( i == j) j = i + 1;
    Slot & a = *pa; Slot & b = *pb;
    uint64_t sw = switches; int c0 = cur[T_()];
    bool va = a.who >= 0, vb = b.who >= 0;
    env::lib = 1;
    switch ( k) {
    case 0: if ( i != j) a.h.swap( b.h); else a.h.swap( a.h); if ( i != j) { std::swap( a.who, b.who); std::swap( a.dead, b.dead); } break;
    case 1: { using std::swap; swap( a.h, b.h); if ( i != j) { std::swap( a.who, b.who); std::swap( a.dead, b.dead); } break; }
    case 2: { Ctx t( std::move( a.h) ); if ( static_cast< bool >( a.h) ) fail( "handle-move", "moved-from handle is still valid"); if ( static_cast< bool >( t) != va) fail( "handle-move", "move changed validity"); a.h = std::move( t); if ( t) fail( "handle-move", "moved-from handle is still valid"); break; }
    case 3: { Ctx & self = a.h; a.h = std::move( self); break; }
    case 4: if ( ! va && ! a.dead && i != j && vb) { a.h = std::move( b.h); std::swap( a.who, b.who); } break;
    case 5: {
        bool lt = a.h < b.h, gt = b.h < a.h;
        if ( a.h < a.h) fail( "handle-order", "a handle is less than itself");
        if ( lt && gt) fail( "handle-order", "ordering is not asymmetric");
        if ( va && vb && i != j && ! lt && ! gt) fail( "handle-order", "two handles of different contexts compare equivalent");
        if ( ! va && ! vb && ! a.dead && ! b.dead && ( lt || gt) ) fail( "handle-order", "two empty handles compare different");
        if ( va && ! vb && ! lt && ! gt) fail( "handle-order", "a valid handle compares equivalent to an invalid one");
        if ( va && vb && M[a.who].is_main && M[b.who].is_main && pa != pb) sim::cov( "handles of two threads' contexts compared");
        for ( int m = 0; m < NS; ++m) if ( lt && b.h < S[m].h && ! ( a.h < S[m].h) ) fail( "handle-order", "ordering is not transitive");
        break; }
    case 6: { if ( a.dead) sim::cov( "handle of a finished context printed"); env::lib = 0; Buf bf; std::ostream os( & bf); os << a.h; bool e = ! strcmp( bf.str(), "{not-a-context}");
        if ( e == va) fail( "handle-stream", "streaming a %s handle printed %s", va ? "valid" : a.dead ? "finished context's" : "empty", bf.str() ); break; }
    }
    env::lib = 0;
    for ( int m = 0; m < NS; ++m) if ( static_cast< bool >( S[m].h) != ( S[m].who >= 0) || ! S[m].h == ( S[m].who >= 0) ) fail( "handle-valid", "a handle is %s but must be %s", S[m].h ? "valid" : "empty", S[m].who >= 0 ? "valid" : "empty");
    if ( sw != switches || cur[T_()] != c0) fail( "handle-switch", "a handle operation switched context");
    sim::cov( "handle operation");
}
static bool would_cycle( int holder, int target) {     // does `target` (transitively) own the handle of `holder`?
    for ( int o = M[holder].owner, n = 0; o >= 0 && n < MAXC; o = M[o].owner, ++n) if ( o == target) return true;
    return false;
}
static bool holdable( int who, int t) {
    // a handle held by a frame is dropped with it: it must not pin a thread, and must not (transitively) be owned by `who` itself
    if ( ! droppable( who, t) ) return false;
    return ! would_cycle( cur[t], who) && who != cur[t];
}

static int deep( int me, int n, int flags);
static int step_( int me, Hold & hold, int flags, int & local_budget);
static int frame( int me, int flags) {
    bool work = ( flags & ( PUSHED | BASE) ) && ! drain && static_cast< long >( choose( 100) ) < knob( "p_work", 0) && ! M[me].pin;
    Tok tok( me, work);
    Pat pat( static_cast< uint64_t >( me) * 1000003 + tok.id);
    Hold hold( me);
    int lb = flags & INDTOR ? 1 + static_cast< int >( choose( 4) ) : flags & INFN ? 1 + static_cast< int >( choose( 6) ) : 1 << 20;
    for (;;) {
        int rc = step_( me, hold, flags, lb);
        if ( cur[T_()] != me) fail( "wrong-context", "context %d continues while context %d is current", me, cur[T_()]);
        pat.check( me);
        if ( rc == 1) return 0;      // pop
        if ( rc == 2) return 1;      // finish the context
    }
}
static void * thread_main( void *);
static void check_main_exit( int t) { if ( T[t].mslot.who >= 0) fail( "harness-exit", "main handle outstanding"); }

static bool thread_can_exit( int t) {
    for ( int i = 0; i < nctx; ++i) if ( M[i].st != FREE && M[i].st != DONE && ! M[i].is_main && ( M[i].pin || M[i].st == RUN || M[i].st == BLOCKED) && M[i].thr == t) return false;
    return true;
}
static int next_thread( int t) { for ( int d = 1; d < nth; ++d) { int u = ( t + d) % nth; if ( T[u].alive) return u; } return -1; }

// drain: bring everything to an end
static int drain_main( int me) {
    int t = T_();
    if ( ++drain_steps > 20000) fail( "no-progress", "contexts do not finish within the step bound after the workload ended");
    if ( T[t].late == 1 && thread_can_exit( t) && choose( 2) == 1) return 1;     // the rest is done by a destructor at thread exit
    for ( int i = 0; i < NS; ++i) if ( S[i].dead) { env::LibScope l; Ctx x( std::move( S[i].h) ); S[i].dead = false; return 0; }
    bool any = false, mine = false;
    for ( int i = 0; i < NS; ++i) if ( S[i].who >= 0) { any = true; mine = mine || resumable( S[i].who, t); }
    if ( mine) {
        if ( choose( 2) == 0) { int w = pick2( droppable, SUSP); if ( w < 0) w = pick2( droppable, UNSTARTED); if ( w >= 0) { Ctx h = take( w); model_drop( me, w, [&h]{ Ctx x( std::move( h) ); }); return 0; } }
        op_resume( me); return 0;
    }
    int u = next_thread( t);
    if ( t != 0 && thread_can_exit( t) && ( ! any || u >= 0) ) return 1;
    if ( u >= 0) { yield_to( u); return 0; }
    if ( any) fail( "harness-stuck", "handles remain that no thread may resume");
    return 1;
}
static int weights[20]; static int wtotal = 0;
enum Op { O_NOP, O_RESUME, O_CREATE, O_PUSH, O_POP, O_TERM, O_DROP, O_WITH, O_FP, O_HANDLE, O_YIELD, O_SPAWN, O_TEXIT, O_THROW, O_HOLD, O_UNHOLD, O_DEEP, O_ESCAPE, O_EXIT, O_N };
static const char * oname[] = { "nop", "resume", "create", "push", "pop", "term", "drop", "with", "fp", "handle", "yield", "spawn", "texit", "throw", "hold", "unhold", "deep", "escape", "exit" };

static int push( int me, int flags) {
    Caught c; int save = M[me].sites, rc = 0;
    M[me].sites++;
    try { rc = frame( me, flags); M[me].sites = save; } CATCH_SITE( me, save, c)
    after_catch( me, c);
    return rc;
}
static int step_( int me, Hold & hold, int flags, int & lb) {
    sim::block();
    if ( exiting && ( drain || budget <= 1 || --exit_steps <= 0) ) finish_exit();
    if ( ! drain && --budget <= 0) { drain = true; sim::note( "-- drain --"); }
    if ( drain) {
        if ( ++drain_steps > 20000) fail( "no-progress", "contexts do not finish within the step bound after the workload ended");
        if ( flags & MAINF) return drain_main( me);
        return flags & BASE ? 2 : 1;
    }
    if ( lb-- <= 0) return 1;
    int t = T_();
    // code 0 is always "nop"; larger codes select an operation by weight
    uint32_t r = choose( 1024); int op = 0;
    if ( r) { int x = static_cast< int >( r * static_cast< uint32_t >( wtotal) / 1024); while ( op < O_N - 1 && x >= weights[op]) { x -= weights[op]; ++op; } }
    sim::note( "[thread %d context %d depth %d] %s", t, me, M[me].depth, oname[op]);
    bool base = flags & ( BASE | MAINF);
    switch ( op) {
    case O_RESUME: op_resume( me); break;
    case O_CREATE: op_create( me); break;
    case O_PUSH: if ( M[me].depth < 7) { int rc = push( me, PUSHED | ( flags & INDTOR ? INDTOR : 0) ); if ( rc == 1) return 2; } break;
    case O_POP: if ( ! base) return 1; break;
    case O_TERM: // finish: only when no injected function or destructor is on this stack
        if ( ! M[me].is_main && ! M[me].infn && ! M[me].pin && ! ( flags & ( INFN | INDTOR) ) && pick2( resumable, SUSP) >= 0) return 2;
        break;
    case O_DROP: op_drop( me); break;
    case O_WITH: op_with( me); break;
    case O_FP: {
        static const uint32_t mxs[6] = { 0x1F80, 0x3F80, 0x5F80, 0x7F80, 0x9F80, 0x9FC0 }; static const uint16_t cws[6] = { 0x37F, 0x77F, 0xB7F, 0xF7F, 0x27F, 0x07F };
        uint32_t m = mxs[choose( 6)]; uint16_t w = cws[choose( 6)]; set_fp( m, w); M[me].mx = m & 0xFFC0u; M[me].cw = w; sim::cov( "fp change");
#if defined(SIM_GUARD)
        if ( ! M[me].is_main) { static uint64_t gs = 0; uint64_t gv = ( ++gs * 0x9E3779B97F4A7C15ull) & ~0xffull; set_guard( gv); M[me].guard = gv; sim::cov( "guard change"); }
#endif
        break; }
    case O_HANDLE: op_handle( me); break;
    case O_YIELD: { int u = next_thread( t); if ( u >= 0 && ! exiting) yield_to( u); break; }
    case O_SPAWN:
        if ( nth < maxth && ! exiting) {
            int u = nth++; sem_init( & T[u].sem, 0, 0); T[u].alive = true; sim::cov( "thread start");
            pthread_attr_t at; pthread_attr_init( & at); pthread_attr_setstacksize( & at, 1 << 20);
            if ( pthread_create( & T[u].pt, & at, thread_main, reinterpret_cast< void * >( static_cast< intptr_t >( u) ) ) ) fail( "harness-thread", "pthread_create");
            yield_to( u);
        } break;
    case O_TEXIT:
        if ( exiting) break;
        if ( ( flags & MAINF) && T[t].late == 1 && M[me].depth == 1 && thread_can_exit( t) && hold.who < 0) return 1;
        if ( ( flags & MAINF) && t != 0 && M[me].depth == 1 && thread_can_exit( t) && next_thread( t) >= 0 && hold.who < 0) { sim::cov( "thread exit with contexts alive"); return 1; } break;
    case O_THROW: if ( M[me].sites - M[me].floor > 0 && M[me].depth > 1 && ! ( flags & INDTOR && M[me].sites == M[me].floor) ) { sim::cov( "local throw"); throw_ex( me, Ctx(), -1); } break;
    case O_HOLD: if ( hold.who < 0) {
            int w = pick( holdable);
            if ( w >= 0 && ! owns_transitively( w, me) ) { hold.h = take( w); hold.who = w; M[w].owner = me; sim::cov( "handle held by a frame"); }
        } break;
    case O_UNHOLD: if ( hold.who >= 0 && free_slots() > 2) { int w = hold.who; hold.who = -1; put( w, std::move( hold.h) ); } break;
    case O_DEEP: { int d = static_cast< int >( choose( 200) ); int n = SEGMENTED ? ( 20 + d) * static_cast< int >( knob( "deepmul", 1) ) : 1 + d * 6 / 200; sim::cov( "deep recursion"); deep( me, n, flags); break; }
    case O_ESCAPE:
        if ( ! M[me].is_main && ! M[me].pin && ( flags & BASE) && ! M[me].infn && ! exiting && ! M[me].argheld) {
            expect_term_ctx = me; expect_term_id = ++exc_serial; sim::cov( "escape");
            int k = static_cast< int >( choose( 3) );
            if ( k == 0) throw EscEx( expect_term_id);
            if ( k == 1) throw EscStdEx( expect_term_id);
            throw expect_term_id;
        } break;
    case O_EXIT:
        if ( exiting || expect_term_ctx >= 0) break;
        exiting = true; exit_steps = 1 + static_cast< long >( choose( 14) );
        sim::cov( M[me].is_main ? "exit() called by a thread" : "exit() called by a context"); sim::ev( 14, static_cast< uint64_t >( me) );
        std::exit( 0);
    default: break;
    }
    return 0;
}
static int __attribute__((noinline)) deep( int me, int n, int flags) {
    volatile char buf[900];
    for ( unsigned i = 0; i < sizeof( buf); i += 64) buf[i] = static_cast< char >( n + static_cast< int >( i) );
    buf[sizeof( buf) - 1] = static_cast< char >( n * 3);
    int r = 0;
    if ( n > 0) r = deep( me, n - 1, flags) + 1;
    else op_resume( me);
    for ( unsigned i = 0; i < sizeof( buf); i += 64) if ( buf[i] != static_cast< char >( n + static_cast< int >( i) ) ) fail( "local-corrupt", "a frame of context %d changed while it was suspended", me);
    if ( buf[sizeof( buf) - 1] != static_cast< char >( n * 3) ) fail( "local-corrupt", "a frame of context %d changed while it was suspended", me);
    return r;
}

// ---------------------------------------------------------------- threads -------------------------
static void warm_up() {        // first use of the library on a thread happens without faults armed
#if defined(API_FIBER)
    Ctx w( [] ( Ctx && c) -> Ctx { return std::move( c); }); w = std::move( w).resume();
#else
    Ctx w = ctx::callcc( [] ( Ctx && c) -> Ctx { return std::move( c); });
#endif
    if ( w) fail( "handle-valid", "handle of a finished context is valid");
}
static uint64_t guard0[MAXTH];
static void run_main( int u) {
    int me = nctx++;
    if ( std::is_copy_constructible< Ctx >::value || std::is_copy_assignable< Ctx >::value || std::is_constructible< Ctx, Ctx & >::value || std::is_assignable< Ctx &, Ctx & >::value
         || std::is_constructible< Ctx, const Ctx && >::value)
        fail( "handle-copy", "a handle can be copied: two valid handles would denote one context");
    if ( me >= MAXC) fail( "harness-ctx", "too many contexts");
    memset( & M[me], 0, sizeof( MCtx) );
    M[me].st = RUN; M[me].is_main = 1; M[me].thr = u; M[me].owner = -1; M[me].stack = -1; M[me].expect_ret = -2;
    T[u].main = me; cur[u] = me;
    M[me].mx = get_mx(); M[me].cw = get_cw(); M[me].guard = get_guard(); guard0[u] = M[me].guard;
    if ( knob( "late", 0) ) T[u].late = static_cast< long >( choose( 100) ) < knob( "late", 0);
    san_thread();
    env::disarm();
    if ( knob( "warm", 1) ) { env::lib = 1; int pc = pending_ctx; pending_ctx = -1; warm_up(); pending_ctx = pc; env::lib = 0; }
    san_bind( me);
    frame( me, MAINF);
    if ( T[u].late) T[u].late = 2;
    env::lib = 0;
}
struct EhGlobals { void * caught; unsigned uncaught; };
static unsigned uncaught;
// the last destructor of a thread: runs after the thread-local objects of the library are gone (they are younger)
struct Late { int u; ~Late(); };
static thread_local Late late_;
static void exit_work( int me) { int n = static_cast< int >( choose( 3) ); for ( int i = 0; i < n; ++i) { sim::cov( "work in an exit handler"); dtor_work( me); } }
static void finish_exit() {
    for ( int i = 0; i < ninj; ++i) if ( I[i].ran > 1) fail( "inject-twice", "injected function ran %d times", I[i].ran);
    sim::finish_ok();
}
static void at_exit() {
    if ( ! exiting) fail( "silent-exit", "the process exits although nobody asked for it");
    exit_work( cur[T_()]);
    finish_exit();
}
Late::~Late() {
    env::HarnessScope hs;
    if ( ! pthread_equal( pthread_self(), T[u].pt) || T_() != u) fail( "wrong-thread", "exit handlers run on another thread");
    if ( exiting) { exit_work( cur[u]); return; }
    int me = T[u].main;
    if ( T[u].late) {
        sim::cov( "contexts used while a thread exits"); sim::note( "-- thread %d exits --", u);
        frame( me, MAINF);
    }
    check_main_exit( u);
    uncaught += reinterpret_cast< EhGlobals * >( abi::__cxa_get_globals() )->uncaught;      // contexts migrate while they unwind: only the sum is meaningful
    set_guard( guard0[u]);
    M[me].st = DONE;
    T[u].alive = false;
    if ( u == 0) return;
    join_req = u;
    int n = next_thread( u);
    if ( n < 0) fail( "harness-thread", "last thread left");
    cur_thread = n; sem_post( & T[n].sem);
}
static void * thread_main( void * v) {
    int u = static_cast< int >( reinterpret_cast< intptr_t >( v) );
    late_.u = u;
    while ( sem_wait( & T[u].sem) ) {}
    if ( join_req >= 0) { pthread_join( T[join_req].pt, nullptr); T[join_req].exited = true; join_req = -1; }
    maybe_fiber();
    run_main( u);
    return nullptr;
}

static void on_term() {
    int t = T_();
    if ( expect_term_ctx < 0) {
        const char * what = "unknown exception";
        if ( std::exception_ptr p = std::current_exception() ) {
            try { std::rethrow_exception( p); }
            catch ( SimEx const& e) { what = "workload exception"; }
            catch ( std::bad_alloc const&) { what = "std::bad_alloc"; }
            catch ( std::system_error const&) { what = "std::system_error"; }
            catch ( CopyEx const&) { what = "copy failure"; }
            catch ( ...) {}
        }
        fail( "terminate", "std::terminate called unexpectedly (%s) in context %d", what, cur[t]);
    }
    if ( cur[t] != expect_term_ctx) fail( "exception-escape", "std::terminate called in context %d although the exception escaped from %d", cur[t], expect_term_ctx);
    if ( ! pthread_equal( pthread_self(), T[t].pt) ) fail( "wrong-thread", "terminate on another thread");
    int id = 0;
    if ( std::exception_ptr p = std::current_exception() ) {
        try { std::rethrow_exception( p); } catch ( EscEx const& e) { id = e.id; } catch ( EscStdEx const& e) { id = e.id; } catch ( int e) { id = e; } catch ( ...) { id = -1; }
    }
    if ( id != expect_term_id) fail( "exception-escape", "std::terminate runs but the escaped exception is not current");
    sim::cov( "terminated by escape"); sim::ev( 13, static_cast< uint64_t >( expect_term_ctx) );
    sim::finish_ok();
}

void sim_zygote_init() {}
void sim_world() {
    static const char * wn[] = { "w_nop", "w_resume", "w_create", "w_push", "w_pop", "w_term", "w_drop", "w_with", "w_fp", "w_handle", "w_yield", "w_spawn", "w_texit", "w_throw", "w_hold", "w_unhold", "w_deep", "w_escape", "w_exit" };
    static const int wd[] = { 2, 30, 10, 8, 6, 5, 5, 8, 3, 3, 4, 2, 1, 3, 4, 2, 1, 0, 0 };
    env::activate( static_cast< int >( choose( 2) ) );
    env::release_hook( releasing);
    std::set_terminate( on_term);
    budget = 10 + static_cast< long >( choose( static_cast< uint32_t >( knob( "steps", 120) ) ) );
    maxth = static_cast< int >( knob( "threads", 1) );
    for ( int i = 0; i < O_N; ++i) {
        weights[i] = static_cast< int >( knob( wn[i], wd[i]) );
        if ( i > O_RESUME && i != O_ESCAPE && i != O_EXIT && weights[i]) { uint32_t m = choose( 6); if ( m == 4) weights[i] = 0; else if ( m == 5) weights[i] *= 4; }   // swarm
        wtotal += weights[i];
    }
    if ( weights[O_CREATE] == 0) { weights[O_CREATE] = 6; wtotal += 6; }
    if ( knob( "allocs", 0xff) >> 4 & 1)
        for ( int i = 0; i < 3; ++i) {
            static const size_t sz[3] = { 65536, 40960, 49152 + 32 }; uint32_t nx = 1 + choose( 3), mx = choose( 3) == 1 ? 4 : 0;
            if ( ! SEGMENTED) pools[i] = new ctx::pooled_fixedsize_stack( sz[i] + EXTRA, nx, mx);
        }
    nth = 1; T[0].alive = true; sem_init( & T[0].sem, 0, 0);
    pthread_attr_t at; pthread_attr_init( & at); pthread_attr_setstacksize( & at, 1 << 20);
    if ( knob( "w_exit", 0) ) atexit( at_exit);
    sem_post( & T[0].sem);
    if ( pthread_create( & T[0].pt, & at, thread_main, nullptr) ) fail( "harness-thread", "pthread_create");
    pthread_join( T[0].pt, nullptr);
}
void sim_final_checks() {
    for ( int i = 0; i < 3; ++i) if ( pools[i]) { delete pools[i]; pools[i] = nullptr; }
    for ( int i = 0; i < nth; ++i) if ( T[i].alive) fail( "harness-thread", "thread alive at the end");
    for ( int i = 0; i < nctx; ++i) if ( M[i].st != FREE && M[i].st != DONE) fail( "harness-end", "context %d in state %d at the end", i, M[i].st);
    for ( int i = 0; i < NS; ++i) if ( S[i].h) fail( "handle-valid", "a handle is valid although every context has ended");
    if ( stacks_live() ) fail( "stack-leak", "%d stacks were never given back", stacks_live() );
    for ( int i = 0; i < nobj; ++i) if ( O[i].live) fail( "object-lifetime", "a %s copy was never destroyed (id %d)", O[i].kind == 1 ? "context function" : O[i].kind == 2 ? "stack allocator" : "injected function", O[i].id);
    for ( int i = 0; i < ninj; ++i) if ( I[i].ran > 1) fail( "inject-twice", "injected function ran %d times", I[i].ran);
    if ( uncaught) fail( "exception-left", "every context has ended but %d exceptions count as uncaught", static_cast< int >( uncaught) );
    san_final();
#if defined(SIM_SHS)
    if ( shs_live() ) fail( "shadow-stack", "%d shadow stacks were never unmapped", shs_live() );
#endif
    if ( win_fibers_live() ) fail( "leak", "%d fibers of the operating system were never deleted", win_fibers_live() );
    if ( vg::count() ) fail( "valgrind", "%d registered stacks remain although every stack was given back", vg::count() );
    env::final_check();
}
