// Low-level world: make_fcontext / jump_fcontext / ontop_fcontext driven by a seeded scheduler.
// Every primitive is called through an assembly thunk that plants values in the callee saved registers and in the
// frame around the call, and (on demand) single-steps the primitive so that a signal lands on every instruction.
#include "core.hpp"
#include "env.hpp"
#include <boost/context/detail/fcontext.hpp>
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
using sim::choose; using sim::fail; using sim::knob;
namespace ctxd = boost::context::detail;
using ctxd::transfer_t; using ctxd::fcontext_t;

struct raw_call { void * fn; uint64_t a0, a1, a2, pat[6], canary, step, r0, r1; uint32_t bad, pad; uint64_t flags; };
extern "C" {
void raw_thunk( raw_call *); void raw_entry( transfer_t); transfer_t raw_ontop( transfer_t);
void raw_body( transfer_t) __attribute__((noreturn)); transfer_t raw_ontop_body( transfer_t);
extern uint64_t raw_entry_sp, raw_entry_flags;
}

enum St { FREE, UNSTARTED, SUSP, RUN, DONE };
enum { MAXC = 40 };
struct RC {
    int st; uint8_t * mem; size_t memsz; uintptr_t base, sp; void * h;
    int from; uint64_t data; bool exact; uint64_t xf; bool started;     // what the next wake-up must deliver
    uint32_t mx; uint16_t cw; uint64_t guard; int depth; uint32_t serial; uint64_t esp;
};
static RC C[MAXC]; static int nc = 0, cur = 0; static long budget = 0; static uint64_t serial = 0; static bool drain = false, exit_ok = false;
static uint64_t sig_count = 0; static uintptr_t sig_lo[2], sig_hi[2]; static bool sig_on = false; static uintptr_t main_lo, main_hi;

static uint32_t get_mx() { uint32_t v; __asm__ volatile( "stmxcsr %0" : "=m"( v) ); return v & 0xFFC0u; }
static uint16_t get_cw() { uint16_t v; __asm__ volatile( "fnstcw %0" : "=m"( v) ); return v; }
static void set_fp( uint32_t mx, uint16_t cw) { __asm__ volatile( "ldmxcsr %0" :: "m"( mx) ); __asm__ volatile( "fldcw %0" :: "m"( cw) ); }
#if defined(SIM_GUARD)
static uint64_t get_guard() { uint64_t v; __asm__ volatile( "movq %%fs:0x28, %0" : "=r"( v) ); return v; }
static void set_guard( uint64_t v) { __asm__ volatile( "movq %0, %%fs:0x28" :: "r"( v) ); }
#else
static uint64_t get_guard() { return 0; }
static void set_guard( uint64_t) {}
#endif

// runs on a stack of its own, but treats the stack it interrupted as a handler there would: everything below the red zone is lost
static void on_trap( int, siginfo_t *, void * u) {
    uint32_t mx = 0x1F80 | 0x2000; __asm__ volatile( "ldmxcsr %0" :: "m"( mx) );
    uint16_t cw = 0x0E7F; __asm__ volatile( "fldcw %0" :: "m"( cw) );
    __asm__ volatile( "pxor %%xmm0,%%xmm0\n pxor %%xmm7,%%xmm7\n pcmpeqd %%xmm15,%%xmm15\n" ::: "xmm0", "xmm7", "xmm15");
    ++sig_count;
    if ( ! sig_on) return;
    ucontext_t * uc = static_cast< ucontext_t * >( u);
    uintptr_t sp = static_cast< uintptr_t >( uc->uc_mcontext.gregs[REG_RSP]);
    for ( int i = 0; i < 2; ++i) if ( sp > sig_lo[i] && sp <= sig_hi[i]) {
        uintptr_t hi = sp - 128, lo = hi - 6000; if ( lo < sig_lo[i] + 1) lo = sig_lo[i] + 1;
        for ( uintptr_t q = lo; q < hi; ++q) *reinterpret_cast< volatile uint8_t * >( q) = static_cast< uint8_t >( 0xE1 + q);
        return;
    }
    fail( "signal-stack", "in the middle of a switch the stack pointer is outside the stacks involved");
}

static void check_canaries( int i) {
    RC & c = C[i]; if ( ! c.mem) return;
    for ( uintptr_t p = reinterpret_cast< uintptr_t >( c.mem); p < c.base; ++p) if ( *reinterpret_cast< uint8_t * >( p) != 0x5C) fail( "stack-bounds", "memory below the stack of context %d was overwritten", i);
    uintptr_t e = reinterpret_cast< uintptr_t >( c.mem) + c.memsz;
    for ( uintptr_t p = c.sp; p < e; ++p) if ( *reinterpret_cast< uint8_t * >( p) != 0x5C) fail( "stack-bounds", "memory above the top of the stack of context %d was overwritten", i);
}
static void model_switch( int to, uint64_t data, int kind) {
    int from = cur; C[from].st = SUSP; C[from].exact = false; C[from].from = -1; C[to].st = RUN; C[to].from = from; C[to].data = data; C[to].exact = false; cur = to;
    sim::sched( static_cast< uint32_t >( from), static_cast< uint32_t >( to), static_cast< uint32_t >( kind) );
    sim::ev( 1, static_cast< uint64_t >( from), static_cast< uint64_t >( to), static_cast< uint64_t >( kind) );
    uint64_t st = 0; for ( int i = 0; i < nc; ++i) st = st * 7 + static_cast< uint64_t >( C[i].st); sim::state( st * 8 + static_cast< uint64_t >( kind) );
    auto rng = [&]( int k, int c) { if ( c == 0) { sig_lo[k] = main_lo; sig_hi[k] = main_hi; } else { sig_lo[k] = C[c].base - 1; sig_hi[k] = C[c].sp; } };
    rng( 0, from); rng( 1, to);
}
static void env_check( int me, const char * w, uint64_t flags) {
    if ( get_mx() != C[me].mx || get_cw() != C[me].cw) fail( "fp-env", "%s: context %d has MXCSR %04x / x87 CW %04x instead of its own %04x / %04x", w, me, get_mx(), get_cw(), C[me].mx, C[me].cw);
    if ( get_guard() != C[me].guard) fail( "stack-guard", "%s: context %d has another stack guard value than its own", w, me);
    if ( flags & 0x400) fail( "registers", "%s: direction flag set in context %d", w, me);
}
static void arrived( int me, const char * w, uint64_t flags) {
    if ( cur != me) { fail( "wrong-context", "%s: context %d continues but context %d was the target", w, me, cur); }
    sim::step(); env_check( me, w, flags);
    check_canaries( me); if ( C[me].from >= 0) check_canaries( C[me].from);
}
struct Job { uint32_t magic; int from, mode, target; uint64_t data; };
static Job J[600]; static int nj = 0;
static const char * const on_top = "function on top";
// handles a delivered transfer_t on the woken side
static void deliver( int me, transfer_t t, const char * w) {
    if ( C[me].exact) {
        if ( reinterpret_cast< uint64_t >( t.fctx) != C[me].xf) fail( "transfer", "%s: context %d did not receive the handle the function on top returned", w, me);
    } else {
        int f = C[me].from;
        if ( ! t.fctx) fail( "transfer", "%s: context %d received a null handle", w, me);
        if ( f < 0) fail( "transfer", "%s: unexpected delivery", w);
        C[f].h = t.fctx;
        uintptr_t a = reinterpret_cast< uintptr_t >( t.fctx);
        uintptr_t lo = f == 0 ? main_lo : C[f].base, hi = f == 0 ? main_hi : C[f].sp;
        if ( a < lo || a >= hi) fail( "transfer", "%s: the handle received by context %d does not denote context %d", w, me, f);
    }
    if ( reinterpret_cast< uint64_t >( t.data) != C[me].data) fail( "transfer", "%s: context %d received data %p instead of %llx", w, me, t.data, (unsigned long long) C[me].data);
    { const char * q = reinterpret_cast< const char * >( C[me].data), * b = reinterpret_cast< const char * >( J); bool in = q >= b && q < b + sizeof( J);
      sim::ev( 2, static_cast< uint64_t >( me), in ? 0x10000u + static_cast< uint64_t >( q - b) : C[me].data); }
    C[me].from = -1;
    if ( w != on_top) for ( int i = 0; i < nj; ++i) if ( J[i].target == me && J[i].magic == 0x1234567) fail( "inject-lost", "%s: context %d continues but the function on top of it has not run", w, me);
}
static uint64_t call( void * fn, uint64_t a0, uint64_t a1, uint64_t a2, transfer_t * out, bool step) {
    raw_call k; memset( & k, 0, sizeof( k) ); uint64_t s = ++serial * 0x100;
    k.fn = fn; k.a0 = a0; k.a1 = a1; k.a2 = a2; for ( int i = 0; i < 6; ++i) k.pat[i] = 0xA5C3000000000000ull + s + static_cast< uint64_t >( i); k.canary = 0xCA7A000000000000ull + s * 0x100; k.step = step;
    int me = cur;
    uint64_t before = sig_count; if ( step) sig_on = true;
    raw_thunk( & k);
    sig_on = false;
    if ( step || sig_count != before) sim::cov( "stepped call returned");
    if ( k.bad & 64) fail( "frame-corrupt", "memory in the caller's frame was overwritten by %s", out ? "a switch" : "the creation of a context");
    if ( k.bad) fail( "registers", "callee saved registers changed (mask %02x: rbx rbp r12..r15)", k.bad);
    if ( out) { out->fctx = reinterpret_cast< void * >( k.r0); out->data = reinterpret_cast< void * >( k.r1); }
    else env_check( me, "creation", k.flags);
    if ( k.flags & 0x400) fail( "registers", "direction flag set");
    return k.r0;
}
static uint64_t fresh() { static const uint64_t sp[6] = { 0, 1, ~0ull, 0x8000000000000000ull, 0xFFFFFFFFull, 0x100000000ull }; uint32_t k = choose( 12); if ( k < 6) return ( ++serial << 20) ^ 0x1122334455667788ull; return sp[k - 6]; }
static int pick( int not_this = -1, bool unst = true) {
    int c[MAXC], n = 0; for ( int i = 0; i < nc; ++i) if ( i != cur && i != not_this && ( C[i].st == SUSP || ( unst && C[i].st == UNSTARTED) ) ) c[n++] = i;
    uint32_t r = choose( 16); if ( ! n) return -1; return c[r * static_cast< uint32_t >( n) / 16];
}
static bool stepping() { return static_cast< long >( choose( 1000) ) < knob( "p_step", 0); }

static void do_jump( int me) {
    int to = drain ? 0 : pick(); if ( to < 0 || to == me) return;
    uint64_t d = fresh(); bool st = stepping(); void * h = C[to].h; sim::cov( C[to].st == UNSTARTED ? "first jump" : "jump");
    model_switch( to, d, 1); C[to].h = nullptr;
    transfer_t t;
    call( reinterpret_cast< void * >( & ctxd::jump_fcontext), reinterpret_cast< uint64_t >( h), d, 0xBADC0FFEull, & t, st);
    arrived( me, "jump", 0); deliver( me, t, "jump");
}
static void do_ontop( int me) {
    if ( nj >= 600) return;
    int to = pick( -1, false); if ( to < 0) return;      // (on a never-started context the trampoline, not a pending jump, would receive the results)
    int mode = static_cast< int >( choose( 5) ); bool st = stepping(); void * h = C[to].h; sim::cov( "ontop suspended");
    int j = nj++; J[j] = Job{ 0x1234567, me, mode, to, 0 };
    model_switch( to, 0, 2); C[to].h = nullptr; C[to].data = reinterpret_cast< uint64_t >( & J[j]);
    transfer_t t;
    call( reinterpret_cast< void * >( & ctxd::ontop_fcontext), reinterpret_cast< uint64_t >( h), reinterpret_cast< uint64_t >( & J[j]), reinterpret_cast< uint64_t >( & raw_ontop), & t, st);
    arrived( me, "ontop", 0); deliver( me, t, "ontop");
}
static void op( int me, int depth);
transfer_t raw_ontop_body( transfer_t t) {
    sig_on = false;
    uint64_t sp = raw_entry_sp, fl = raw_entry_flags; int me = cur;
    arrived( me, "function on top", fl);
    if ( ( sp + 8) % 16) fail( "alignment", "function on top of context %d starts with a misaligned stack", me);
    if ( me && ( sp < C[me].base || sp >= C[me].sp) ) fail( "stack-bounds", "function on top does not run on the stack of context %d", me);
    if ( ! me && ( sp < main_lo || sp >= main_hi) ) fail( "stack-bounds", "function on top does not run on the main stack");
    Job * j = static_cast< Job * >( t.data); int from = C[me].from;
    if ( j < J || j >= J + nj || j->magic != 0x1234567 || j->target != me || j->from != from) fail( "transfer", "function on top of context %d received wrong data", me);
    deliver( me, t, on_top);
    j->magic = 0x7654321;       // runs once
    sim::ev( 3, static_cast< uint64_t >( me), static_cast< uint64_t >( j->mode) );
    transfer_t r; volatile uint64_t keep = 0xFEEDull + static_cast< uint64_t >( me);
    switch ( j->mode) {
    case 1: case 2: { int o = j->mode == 1 ? from : pick( -1, false); if ( o < 0) o = from; sim::cov( "ontop returns another handle"); r.fctx = C[o].h; r.data = reinterpret_cast< void * >( fresh() ); break; }
    case 3: sim::cov( "ontop returns arbitrary data"); r.fctx = reinterpret_cast< void * >( fresh() ); r.data = reinterpret_cast< void * >( fresh() ); break;
    case 4: { sim::cov( "ontop switches"); int n = 1 + static_cast< int >( choose( 3) ); for ( int i = 0; i < n; ++i) op( me, 9); int o = pick( -1, false); r.fctx = o < 0 ? nullptr : C[o].h; r.data = reinterpret_cast< void * >( fresh() ); break; }
    default: r.fctx = C[from].h; r.data = t.data; break;
    }
    if ( keep != 0xFEEDull + static_cast< uint64_t >( me) ) fail( "local-corrupt", "a local of the function on top of context %d changed", me);
    if ( cur != me) fail( "wrong-context", "function on top of context %d continues in context %d", me, cur);
    C[me].exact = true; C[me].xf = reinterpret_cast< uint64_t >( r.fctx); C[me].data = reinterpret_cast< uint64_t >( r.data); C[me].from = -1;
    return r;
}
static void do_make( int me) {
    int live = 0; for ( int i = 0; i < nc; ++i) live += C[i].st != FREE && C[i].st != DONE;
    static const size_t sizes[6] = { 32768, 32768 + 8, 40000, 32768 + 1, 65536, 33333 };
    size_t size = sizes[choose( 6)]; size_t off = choose( 64); bool st = stepping();
    if ( nc >= MAXC || live > knob( "maxlive", 8) ) return;
    int id = nc++; RC & c = C[id]; memset( & c, 0, sizeof( c) );
    c.memsz = size + 512; c.mem = static_cast< uint8_t * >( std::malloc( c.memsz) ); memset( c.mem, 0x5C, c.memsz);
    c.base = ( reinterpret_cast< uintptr_t >( c.mem) + 256) & ~uintptr_t( 63); c.sp = c.base + size - 64 + off; c.serial = static_cast< uint32_t >( ++serial);
    memset( reinterpret_cast< void * >( c.base), 0xCD, c.sp - c.base);
    c.mx = C[me].mx; c.cw = C[me].cw; c.guard = C[me].guard; c.st = UNSTARTED; c.from = -1;
    sim::ev( 4, static_cast< uint64_t >( me), static_cast< uint64_t >( id), off); sim::cov( "make");
    sig_lo[0] = me ? C[me].base : main_lo; sig_hi[0] = me ? C[me].sp : main_hi; sig_lo[1] = sig_lo[0]; sig_hi[1] = sig_hi[0];
    c.h = reinterpret_cast< void * >( call( reinterpret_cast< void * >( & ctxd::make_fcontext), c.sp, size, reinterpret_cast< uint64_t >( & raw_entry), nullptr, st) );
    uintptr_t a = reinterpret_cast< uintptr_t >( c.h);
    if ( a < c.base || a >= c.sp) fail( "transfer", "handle of the new context %d lies outside its stack", id);
    check_canaries( id); env_check( me, "make", 0);
    if ( cur != me) fail( "wrong-context", "creation switched context");
}
static void do_abandon( int) {
    int i = pick( 0); if ( i <= 0) return;
    for ( int k = 0; k < nj; ++k) if ( J[k].from == i && J[k].magic == 0x1234567) return;
    sim::cov( "abandon"); check_canaries( i); std::free( C[i].mem); C[i].mem = nullptr; C[i].st = DONE; C[i].h = nullptr; sim::ev( 5, static_cast< uint64_t >( i) );
}
static int __attribute__((noinline)) rec( int me, int depth, int n) {
    volatile uint64_t v[9]; for ( int i = 0; i < 9; ++i) v[i] = static_cast< uint64_t >( me * 77 + n * 1001 + i) * 0x9E3779B97F4A7C15ull;
    double a = 1.0 + me, b = 3.0 + n; 
    if ( n > 0) rec( me, depth, n - 1);
    else op( me, depth + 1);
    for ( int i = 0; i < 9; ++i) if ( v[i] != static_cast< uint64_t >( me * 77 + n * 1001 + i) * 0x9E3779B97F4A7C15ull) fail( "local-corrupt", "a local of context %d changed while it was suspended", me);
    return a + b > 0 ? 1 : 0;
}
static void op( int me, int depth) {
    sim::block();
    if ( ! drain && --budget <= 0) { drain = true; sim::note( "-- drain --"); }
    if ( drain) { if ( me) do_jump( me); return; }
    uint32_t r = choose( 64);
    sim::note( "[context %d] op %u", me, r);
    if ( r == 0) return;
    if ( r < 26) do_jump( me);
    else if ( r < 36) do_ontop( me);
    else if ( r < 46) do_make( me);
    else if ( r < 50) { static const uint32_t mxs[6] = { 0x1F80, 0x3F80, 0x5F80, 0x7F80, 0x9F80, 0x9FC0 }; static const uint16_t cws[6] = { 0x37F, 0x77F, 0xB7F, 0xF7F, 0x27F, 0x07F };
        uint32_t m = mxs[choose( 6)]; uint16_t w = cws[choose( 6)]; set_fp( m, w); C[me].mx = m & 0xFFC0u; C[me].cw = w; sim::cov( "fp change"); }
    else if ( r < 53) {
#if defined(SIM_GUARD)
        uint64_t g = choose( 2) ? ( ++serial << 24) * 0x9E3779B97F4A7C15ull & ~0xffull : ( ++serial << 8); set_guard( g); C[me].guard = g; sim::cov( "guard change");
#endif
    }
    else if ( r < 56) do_abandon( me);
    else if ( r < 60) { if ( depth < 6) rec( me, depth, static_cast< int >( choose( 5) ) ); }
    else if ( r < 62) { int x = static_cast< int >( choose( 1000) ); sim::cov( "throw inside a low-level context"); try { if ( depth < 6) rec( me, depth, 1); throw x; } catch ( int e) { if ( e != x) fail( "exception-corrupt", "exception changed"); if ( cur != me) fail( "wrong-context", "exception arrived in context %d", cur); } }
    else if ( r == 62 && me && static_cast< long >( choose( 100) ) < knob( "p_exit", 5) && depth == 0) C[me].depth = -1;      // return from the entry function
}
static void __attribute__((noinline)) body_returns() { exit_ok = true; sim::cov( "entry function returned"); }
extern "C" void raw_run( transfer_t t, uint64_t sp, uint64_t fl);
void raw_run( transfer_t t, uint64_t sp, uint64_t fl) {
    int me = cur; arrived( me, "entry", fl);
    if ( C[me].started) fail( "started-twice", "entry function of context %d entered twice", me);
    C[me].started = true;
    if ( ( sp + 8) % 16) fail( "alignment", "entry function of context %d starts with a misaligned stack", me);
    if ( sp < C[me].base || sp >= C[me].sp) fail( "stack-bounds", "entry function of context %d does not run on its stack", me);
    if ( sp + 1024 < C[me].sp) fail( "stack-bounds", "entry function of context %d starts far below the top of its stack", me);
    C[me].esp = sp;
    deliver( me, t, "entry");
    while ( C[me].depth >= 0) op( me, 0);
    body_returns();
}
void raw_body( transfer_t t) {
    sig_on = false;
    raw_run( t, raw_entry_sp, raw_entry_flags);
    // leave by returning from the entry function: the stack pointer is where it was at entry
    __asm__ volatile( "movq %0, %%rsp\n\tret" :: "r"( C[cur].esp) );
    __builtin_unreachable();
}
extern "C" void __real__exit( int) __attribute__((noreturn));
extern "C" void __wrap__exit( int code) {
    if ( exit_ok) {
        exit_ok = false;
        if ( code != 0) fail( "exit-code", "returning from an entry function ended the program with code %d", code);
        sim::finish_ok();
    }
    __real__exit( code);
}

void sim_zygote_init() {}
void sim_world() {
    env::activate( static_cast< int >( choose( 2) ) );
    struct sigaction sa; memset( & sa, 0, sizeof( sa) ); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; { static char alt[1 << 16]; stack_t st; memset( & st, 0, sizeof( st) ); st.ss_sp = alt; st.ss_size = sizeof( alt); sigaltstack( & st, nullptr); } sigaction( SIGTRAP, & sa, nullptr);
    char here; main_hi = reinterpret_cast< uintptr_t >( & here) + 4096; main_lo = main_hi - ( 4u << 20);
    uint64_t g0 = get_guard();
    nc = 1; C[0].st = RUN; C[0].mx = get_mx(); C[0].cw = get_cw(); C[0].guard = g0; C[0].started = true; C[0].from = -1; C[0].base = 0;
    budget = 8 + static_cast< long >( choose( static_cast< uint32_t >( knob( "steps", 120) ) ) );
    while ( ! drain) op( 0, 0);
    sim::block();
    set_guard( g0); set_fp( 0x1F80, 0x37F);
    for ( int i = 1; i < nc; ++i) if ( C[i].mem) { check_canaries( i); std::free( C[i].mem); C[i].mem = nullptr; }
    if ( sig_count) sim::fault_fired( "signal at an instruction of a switch", sig_count);
}
void sim_final_checks() { env::final_check(); }
