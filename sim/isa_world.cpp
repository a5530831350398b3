// Switch primitives of the other platforms: make_fcontext / jump_fcontext / ontop_fcontext of one target, assembled for that target, executed on a
// stand-in processor under a seeded scheduler.  The harness plays the compiled code around them: it calls the primitives by that platform's calling
// convention, plants values in every register and frame, answers entry and injected functions, and interrupts the primitives at any instruction.
#include "core.hpp"
#include "isa_cpu.hpp"
#include <cstring>
#include <map>
#include <memory>
#include <set>
using sim::choose; using sim::fail; using sim::knob; using namespace isa;

extern "C" { extern const char isa_listing[]; }
enum : u64 { A_RET = 0x40000000, A_ENTRY = 0x41000000, A_ONTOP = 0x42000000, A_SAVE = 0x43000000, A_EXIT = 0x180000, A_TAIL = 0x190000, A_END = 0x44000000,
             M_STACK = 0x10000000, M_TIB = 0x20000000, M_TLS = 0x21000000, M_DESC = 0x22000000, M_SHADOW = 0x30000000, BIAS = 2047, SEHH = 0x10000 };
enum Pass { VAL, REF, STK }; enum RetK { REGS, HID };

// ---- calling conventions -----------------------------------------------------------
struct Abi {
    str sp, link, ret[2], fnreg; std::vector< str > args, saved; Pass pass; RetK rk; bool stackargs, retaddr, calleepops, hidret; u64 align, entryadj, resv, redzone;
    std::vector< str > fp; std::set< str > fixed; u64 crmask; bool backchain, win, desc, tail; str tib; u64 tibsize; u64 guard; bool shs;
    struct Fld { u64 off; int kind; }; std::vector< Fld > flds;          // thread information block: 0 stack base, 1 limit, 2 deallocation stack, 3 fiber data, 4 exception list
} A;
static std::vector< str > seq( const char * p, int a, int b, int step = 1) { std::vector< str > v; for ( int i = a; i <= b; i += step) v.push_back( p + std::to_string( i) ); return v; }
static void add( std::vector< str > & v, const std::vector< str > & w) { v.insert( v.end(), w.begin(), w.end() ); }
static bool starts( const str & s, const char * p) { return s.compare( 0, strlen( p), p) == 0; }
static bool has( const str & s, const char * p) { return s.find( p) != str::npos; }
static void abi_init() {
    A.pass = VAL; A.rk = REGS; A.stackargs = A.retaddr = A.calleepops = A.hidret = A.backchain = A.win = A.desc = A.tail = A.shs = false; A.align = 16; A.entryadj = A.resv = A.redzone = 0; A.crmask = 0; A.tibsize = 0; A.guard = 0;
    const str & t = target; bool pe = has( t, "_pe");
    if ( starts( t, "x86_64") ) {
        A.sp = "rsp"; A.retaddr = true; A.entryadj = 8; A.fp = { "mxcsr", "x87cw" }; A.saved = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
        if ( pe) { A.args = { "rcx", "rdx", "r8", "r9" }; A.rk = HID; A.pass = REF; A.hidret = true; A.resv = 32; add( A.saved, { "rdi", "rsi" }); for ( int i = 6; i <= 15; ++i) add( A.saved, { "xmm" + std::to_string( i), "xmm" + std::to_string( i) + "h" });
            A.tib = "seg_gs"; A.tibsize = 0x1800; A.flds = { { 8, 0 }, { 0x10, 1 }, { 0x1478, 2 }, { 0x20, 3 } }; }
        else { A.args = { "rdi", "rsi", "rdx", "rcx" }; A.redzone = 128; }
        A.ret[0] = "rax"; A.ret[1] = "rdx"; if ( has( t, "guard") ) { A.guard = 0x28; A.tib = "seg_fs"; A.tibsize = 0x100; }
        A.shs = has( t, "shstk");
    } else if ( starts( t, "i386") ) {
        A.sp = "esp"; A.retaddr = true; A.entryadj = 4; A.fp = { "mxcsr", "x87cw" }; A.saved = { "ebx", "esi", "edi", "ebp" }; A.stackargs = true; A.pass = STK; A.ret[0] = "eax"; A.ret[1] = "edx";
        if ( has( t, "_elf") ) { A.rk = HID; A.calleepops = A.hidret = true; }
        if ( pe) { A.tib = "seg_fs"; A.tibsize = 0x1000; A.flds = { { 4, 0 }, { 8, 1 }, { 0xE0C, 2 }, { 0x10, 3 }, { 0, 4 } }; }
        if ( has( t, "guard") ) { A.guard = 0x14; A.tib = "seg_gs"; A.tibsize = 0x100; }
    } else if ( starts( t, "arm64") ) {
        A.sp = "sp"; A.link = "x30"; A.args = seq( "x", 0, 7); A.ret[0] = "x0"; A.ret[1] = "x1"; A.saved = seq( "x", 19, 29); add( A.saved, seq( "d", 8, 15) ); A.redzone = has( t, "macho") ? 128 : 0;
        if ( pe) { A.tib = "x18"; A.tibsize = 0x1800; A.flds = { { 8, 0 }, { 0x10, 1 }, { 0x1478, 2 }, { 0x20, 3 } }; }
    } else if ( starts( t, "arm") ) {
        A.sp = "sp"; A.link = "lr"; A.args = seq( "r", 0, 3); A.rk = HID; A.saved = seq( "r", 4, 11); A.align = has( t, "macho") ? 4 : 8; if ( ! has( t, "soft") ) add( A.saved, seq( "d", 8, 15) );
        if ( has( t, "macho") ) { A.tib = "tls"; A.tibsize = 0x100; A.guard = 0x48; }      // the head of the chain of exception handlers is kept like a guard value, see started-only below
    } else if ( t == "riscv64") { A.sp = "sp"; A.link = "ra"; A.args = seq( "a", 0, 7); A.ret[0] = "a0"; A.ret[1] = "a1"; A.saved = seq( "s", 0, 11); add( A.saved, seq( "fs", 0, 11) ); A.fixed = { "tp", "gp" };
    } else if ( t == "loongarch64") { A.sp = "$sp"; A.link = "$ra"; A.args = seq( "$a", 0, 7); A.ret[0] = "$a0"; A.ret[1] = "$a1"; A.saved = seq( "$s", 0, 8); A.saved.push_back( "$fp"); add( A.saved, seq( "$fs", 0, 7) ); A.fixed = { "$tp" };
    } else if ( starts( t, "mips32") ) { A.sp = "$sp"; A.link = "$ra"; A.args = { "$4", "$5", "$6", "$7" }; A.ret[0] = "$2"; A.rk = HID; A.hidret = true; A.saved = seq( "$", 16, 23); A.saved.push_back( "$fp"); add( A.saved, seq( "$f", 20, 30, 2) ); A.align = 8; A.resv = 16; A.fnreg = "$25";
    } else if ( starts( t, "mips64") ) { A.sp = "$sp"; A.link = "$ra"; A.args = seq( "$", 4, 11); A.ret[0] = "$2"; A.ret[1] = "$3"; A.saved = seq( "$", 16, 23); add( A.saved, { "$fp", "$gp" }); add( A.saved, seq( "$f", 24, 31) ); A.fnreg = "$25";
    } else if ( starts( t, "ppc32") ) {
        A.sp = "r1"; A.link = "lr"; A.args = seq( "r", 3, 10); A.pass = REF; A.ret[0] = "r3"; A.ret[1] = "r4"; if ( t == "ppc32_linux") { A.rk = HID; A.hidret = true; } A.saved = seq( "r", 14, 31); add( A.saved, seq( "f", 14, 31) ); A.crmask = 0x00fff000; A.fp = { "fpscr" }; A.resv = 8; A.backchain = true; A.tail = true; A.fixed = { "r2", "r13" };
    } else if ( starts( t, "ppc64") ) {
        bool v1 = starts( t, "ppc64_v1"); A.sp = "r1"; A.link = "lr"; A.args = seq( "r", 3, 10); A.ret[0] = "r3"; A.ret[1] = "r4"; A.saved = seq( "r", 14, 31); add( A.saved, seq( "f", 14, 31) ); A.crmask = 0x00fff000; A.backchain = true; A.redzone = 288; A.fixed = { "r13" }; if ( t != "ppc64_v1") for ( int i = 20; i <= 31; ++i) add( A.saved, { "v" + std::to_string( i), "v" + std::to_string( i) + "h" });
        if ( v1) { A.rk = HID; A.hidret = true; A.resv = 64; A.desc = true; A.saved.push_back( "r2"); } else { A.resv = 32; A.fnreg = "r12"; }
    } else if ( t == "s390x") { A.sp = "%r15"; A.link = "%r14"; A.args = seq( "%r", 2, 6); A.rk = HID; A.pass = REF; A.saved = seq( "%r", 6, 13); add( A.saved, seq( "%f", 8, 15) ); A.fp = { "fpc" }; A.resv = 160; A.align = 8;
    } else { A.sp = "%o6"; A.link = "%o7"; A.args = seq( "%o", 0, 5); A.ret[0] = "%o0"; A.ret[1] = "%o1"; A.win = true; A.resv = 176; A.saved = seq( "%l", 0, 7); add( A.saved, seq( "%i", 0, 7) ); }
    for ( const str & s : A.saved) reg( s); for ( const str & s : A.args) reg( s); for ( const str & s : A.fp) reg( s); reg( A.sp); if ( ! A.link.empty() ) reg( A.link); if ( A.crmask) reg( "cr");
    if ( ! A.tib.empty() && A.tib != "tls") reg( A.tib);
    if ( A.shs) reg( "ssp");
    A.fixed.insert( { A.sp, "ssp", "xzr", "wzr", "zero", "$zero", "%g0", "pc", "seg_fs", "seg_gs", "tls", "cc", "zf", "%g7" }); for ( const str & s : A.fp) A.fixed.insert( s); if ( ! A.tib.empty() ) A.fixed.insert( A.tib); if ( starts( t, "mips64") ) A.fixed.insert( "$gp");
}

// ---- memory -----------------------------------------------------------------------
struct Mem { u64 lo, hi; std::vector< uint8_t > b; int owner; bool ro; };       // owner: context, or -1
static std::vector< Mem > mem, segs; static int from_c = 0, to_c = 0;                    // the contexts of the switch in progress
static bool quiet = false; static const char * doing = "?";
static Mem * find( u64 a, int n) { for ( Mem & m : mem) if ( a >= m.lo && a + n <= m.hi && a + n > a) return & m; return nullptr; }
static u64 raw_get( u64 a, int n) { Mem * m = find( a, n); if ( ! m) fail( "wild-access", "%s: harness read of %#llx", doing, static_cast< unsigned long long >( a) ); u64 v = 0; for ( int i = 0; i < n; ++i) v |= u64( m->b[a - m->lo + i]) << ( 8 * ( be ? n - 1 - i : i) ); return v; }
static void raw_put( u64 a, int n, u64 v) { Mem * m = find( a, n); if ( ! m) fail( "stack-bounds", "%s: the memory a called function may use at %#llx is not part of any stack", doing, static_cast< unsigned long long >( a) ); for ( int i = 0; i < n; ++i) m->b[a - m->lo + i] = static_cast< uint8_t >( v >> ( 8 * ( be ? n - 1 - i : i) ) ); }
namespace isa {
u64 load( u64 a, int n) {
    a = trunc( a, W);
    if ( a == 1 && n == 16) fail( "misaligned", "%s: an access that needs a 16-byte boundary is not on one (instruction at %#llx: %s)", doing, static_cast< unsigned long long >( cur), code[index_of[cur]].text.c_str() );
    if ( a == 2 && n == 16) fail( "trap", "%s: runs into a trap instruction at %#llx", doing, static_cast< unsigned long long >( cur) );
    Mem * m = find( a, n); if ( ! m) fail( "wild-access", "%s: reads address %#llx, which is nothing of its own (instruction at %#llx: %s)", doing, static_cast< unsigned long long >( a), static_cast< unsigned long long >( cur), code[index_of[cur]].text.c_str() );
    return raw_get( a, n);
}
void store( u64 a, int n, u64 v) {
    a = trunc( a, W); Mem * m = find( a, n);
    if ( ! m || m->ro || ( m->owner >= 0 && m->owner != from_c && m->owner != to_c) ) fail( "wild-access", "%s: writes address %#llx, outside the stacks of the contexts involved (instruction at %#llx: %s)", doing, static_cast< unsigned long long >( a), static_cast< unsigned long long >( cur), code.empty() ? "" : code[index_of[cur]].text.c_str() );
    raw_put( a, n, v);
}
u64 trap_register( const str & w) { if ( w == "c13_0x3" || w == "c13_3") return M_TLS | ( choose( 2) ? 2 : 0); throw Unsupported{ "thread register " + w}; }
}

// ---- contexts ----------------------------------------------------------------------
enum Kind { MAIN, ENTRY, ONTOP };
struct Call { bool on = false; u64 ssp = 0, id = 0, sp = 0, ret = 0, lo = 0, hi = 0, hid = 0, seed = 0; int kind = 0; std::vector< u64 > sav; u64 cr = 0; };
struct Frame { Kind k; u64 base, sp, link, hid; std::vector< u64 > sav; u64 cr; Call call; };
enum St { FREE, FRESH, SUSP, RUN, DONE };
struct Ctx { St st = FREE; size_t m = 0; u64 lo = 0, top = 0, h = 0; std::vector< Frame > f; int from = -1; u64 data = 0; bool exact = false; u64 xf = 0; std::vector< u64 > fp; u64 guard = 0; bool started = false; std::map< u64, u64 > tib; u64 fn = 0; u64 lasth = 0; u64 gp = 0; };
enum { MAXC = 12 };
// ---- shadow stacks: memory that only calls, returns and the instructions for them may touch -------------
static std::map< u64, u64 > sh;
static u64 sh_top( int i) { return M_SHADOW + u64( i) * 0x10000 + 0x1000; }
static Ctx C[MAXC]; static int nc, me; static u64 serial, calls, ninstr;
static u64 rnd() { serial = serial * 6364136223846793005ull + 1442695040888963407ull; u64 x = serial; x ^= x >> 29; return x * 0x9E3779B97F4A7C15ull; }
static u64 regval( const str & n, u64 v) { bool f = n[0] == 'd' || ( n[0] == 'v' && isdigit( n[1]) ) || starts( n, "xmm") || starts( n, "$f") || n[0] == 'f' || starts( n, "%f"); if ( n == "$fp" || n == "fp") f = false; return f ? v : trunc( v, W); }
static void scramble() { for ( auto & p : names) if ( ! A.fixed.count( p.first) ) R[p.second] = regval( p.first, rnd() ); if ( A.crmask) r( "cr") = static_cast< uint32_t >( rnd() ); }
static u64 sp_() { return r( A.sp) + ( A.win ? BIAS : 0); }
static void set_sp( u64 v) { r( A.sp) = v - ( A.win ? BIAS : 0); }
static unsigned long long ll( u64 v) { return v; }
namespace isa {
u64 shadow( u64 a, bool write, u64 v) {
    if ( a == 1) fail( "shadow-stack", "%s: there is no token of a shadow stack where one is needed, but %#llx (instruction at %#llx)", doing, ll( v), ll( cur) );
    if ( a == 2) fail( "shadow-stack", "%s: there is no token of the previous shadow stack to save, but %#llx (instruction at %#llx)", doing, ll( v), ll( cur) );
    if ( a == 3) fail( "shadow-stack", "%s: a return to %#llx does not agree with the shadow stack (instruction at %#llx)", doing, ll( v), ll( cur) );
    bool mine = false; for ( int i : { from_c, to_c }) if ( a >= sh_top( i) - 0x1000 && a < sh_top( i) ) mine = true;
    if ( ! mine || a % 8) fail( "shadow-stack", "%s: %s %#llx, which is not memory of the shadow stacks of the contexts involved (instruction at %#llx)", doing, write ? "writes" : "reads", ll( a), ll( cur) );
    if ( write) sh[a] = v;
    return sh[a];
}
}
static u64 ssp_() { return A.shs ? r( "ssp") : 0; }
static void sh_call( u64 ret) { if ( A.shs) { r( "ssp") -= 8; shadow( r( "ssp"), true, ret); } }
static void sh_ret( u64 ret) { if ( A.shs) { if ( shadow( r( "ssp"), false, 0) != ret) shadow( 3, false, ret); r( "ssp") += 8; } }
static void sh_use( int n) { if ( A.shs) for ( int i = 1; i <= n; ++i) shadow( r( "ssp") - 8 * static_cast< u64 >( i), true, 0xE1E1E1E1u + static_cast< u64 >( i) ); }
static void go( u64 a) { pc = a; npc = a + 4; }
static u64 fnptr( u64 magic) { if ( ! A.desc) return magic; static std::map< u64, u64 > d; auto it = d.find( magic); if ( it != d.end() ) return it->second; u64 a = M_DESC + 32 * d.size(); d[magic] = a; raw_put( a, 8, magic); raw_put( a + 8, 8, 0x7700000000ull + d.size() ); raw_put( a + 16, 8, 0); return a; }
static u64 fpval( const str & n) { u64 v = rnd(); if ( n == "mxcsr") return 0x1F80 ^ ( ( v & 3) << 13) ^ ( v & 0x1000 ? 0x40 : 0); if ( n == "x87cw") return 0x037F ^ ( ( v & 3) << 10); if ( n == "fpc") return ( v & 3) | ( v & 0xF8000000u); return v & 0xF3u; }

static void canary_fill( Call & c) { Mem * m = find( c.lo, 1); for ( u64 p = c.lo; p < c.hi; ++p) { if ( c.hid && p >= c.hid && p < c.hid + 2 * W) continue; m->b[p - m->lo] = static_cast< uint8_t >( c.seed + p * 7); } }
static void canary_check( int i, const Call & c) {
    Mem * m = find( c.lo, 1);
    for ( u64 p = c.lo; p < c.hi; ++p) { if ( c.hid && p >= c.hid && p < c.hid + 2 * W) continue; if ( m->b[p - m->lo] != static_cast< uint8_t >( c.seed + p * 7) ) fail( "frame-damage", "%s: the frame around a pending switch of context %d was overwritten (%llu bytes above the stack pointer there)", doing, i, ll( p - c.sp) ); }
}
static void guards_check( int i) { Ctx & c = C[i]; if ( i == 0 || c.st == FREE) return; Mem & m = mem[c.m]; static std::vector< uint8_t > pat( 0x6000, 0x5C); if ( memcmp( & m.b[0], & pat[0], c.lo - m.lo) || memcmp( & m.b[c.top - m.lo], & pat[0], m.hi - c.top) ) fail( "stack-bounds", "%s: memory outside the stack of context %d was overwritten", doing, i); }
static void env_check( int i, const char * w) {
    Ctx & c = C[i];
    for ( size_t k = 0; k < A.fp.size(); ++k) { u64 v = r( A.fp[k]); if ( A.fp[k] == "mxcsr") v &= 0xFFC0, c.fp[k] &= 0xFFC0; if ( v != c.fp[k]) fail( "fp-env", "%s: context %d has %s = %#llx instead of its own %#llx", w, i, A.fp[k].c_str(), ll( v), ll( c.fp[k]) ); }
    u64 tb = A.tib == "tls" ? u64( M_TLS) : u64( M_TIB);
    if ( A.guard && ( A.tib != "tls" || c.started) ) { u64 v = raw_get( tb + A.guard, W); if ( v != c.guard) fail( "stack-guard", "%s: context %d finds %#llx instead of its own %s %#llx", w, i, ll( v), A.tib == "tls" ? "chain of exception handlers" : "stack guard value", ll( c.guard) ); }
    for ( auto & f : A.flds) {
        u64 v = raw_get( tb + f.off, W);
        if ( f.kind == 4 && ! c.started) {
            if ( v < c.lo || v + 2 * W > c.top || ( v & 3) ) fail( "thread-block", "%s: the exception list of new context %d starts at %#llx, outside its stack", w, i, ll( v) );
            if ( raw_get( v, W) != 0xffffffff) fail( "thread-block", "%s: the exception list of new context %d does not end after its first record", w, i);
            if ( raw_get( v + W, W) != c.tib[SEHH] ) fail( "thread-block", "%s: the exception record of new context %d names handler %#llx instead of the last one of its creator, %#llx", w, i, ll( raw_get( v + W, W) ), ll( c.tib[SEHH]) );
            c.tib[f.off] = v; continue;
        }
        if ( v != c.tib[f.off]) fail( "thread-block", "%s: context %d has %s = %#llx instead of its own %#llx", w, i, f.kind == 0 ? "stack base" : f.kind == 1 ? "stack limit" : f.kind == 2 ? "deallocation stack" : f.kind == 3 ? "fiber data" : "exception list", ll( v), ll( c.tib[f.off]) );
    }
}
static void env_new( Ctx & c, const Ctx & by, u64 top, u64 size) {
    c.fp = by.fp; c.guard = by.guard; c.tib.clear();
    for ( auto & f : A.flds) if ( f.kind == 0) c.tib[f.off] = top; else if ( f.kind == 1 || f.kind == 2) c.tib[f.off] = top - size; else if ( f.kind == 3) c.tib[f.off] = 0;
}
// the running context changes something of its own
static void env_change() {
    Ctx & c = C[me]; u64 tb = A.tib == "tls" ? u64( M_TLS) : u64( M_TIB);
    for ( size_t k = 0; k < A.fp.size(); ++k) if ( choose( 2) ) { c.fp[k] = fpval( A.fp[k]); r( A.fp[k]) = c.fp[k]; }
    if ( A.guard && choose( 2) ) { c.guard = trunc( rnd(), W); raw_put( tb + A.guard, W, c.guard); }
    for ( auto & f : A.flds) if ( f.kind != 0 && f.kind != 4 && choose( 2) ) { u64 v = trunc( f.kind == 3 ? rnd() : c.lo + ( rnd() & 0xff0), W); c.tib[f.off] = v; raw_put( tb + f.off, W, v); }
}

// ---- execution ----------------------------------------------------------------------
static bool in_stack( u64 a, int c) { return a > mem[C[c].m].lo && a <= mem[C[c].m].hi; }
static void interrupt() {
    u64 s = sp_(); int k = in_stack( s, from_c) ? from_c : in_stack( s, to_c) ? to_c : -1;
    if ( k < 0) fail( "signal-stack", "%s: in the middle of the operation the stack pointer %#llx is outside the stacks involved", doing, ll( s) );
    if ( A.win && choose( 2) ) spill_windows();
    u64 hi = s - A.redzone, lo = C[k].lo; if ( hi > lo + 3000) lo = hi - 3000; Mem & m = mem[C[k].m];
    for ( u64 p = lo; p < hi; ++p) m.b[p - m.lo] = static_cast< uint8_t >( 0xE1 + p);
    sh_use( 3 + static_cast< int >( s >> 4 & 7) );
    sim::fault_fired( "interrupt");
}
static bool magic( u64 a) { return ( a >= A_RET && a < A_END) || a == A_EXIT || a == A_TAIL; }
static u64 ints[4]; static int nints;
static void plan_interrupts() { nints = 0; if ( sim::chance( static_cast< uint32_t >( knob( "p_int", 350) ), 1000) ) { nints = 1 + static_cast< int >( choose( 3) ); for ( int i = 0; i < nints; ++i) ints[i] = choose( choose( 2) ? 240 : 60); } }
static void run() {
    u64 n = 0;
    while ( ! magic( pc) ) {
        for ( int i = 0; i < nints; ++i) if ( ints[i] == n) interrupt();
        if ( ++n > 600) fail( "runaway", "%s: the operation does not come to an end", doing);
        if ( index_of.find( pc) == index_of.end() ) fail( "wild-jump", "%s: control goes to %#llx, where there is no code of the library", doing, ll( pc) );
        ++ninstr; step();
    }
    nints = 0; sim::step(); sim::cov( "instructions", n);
}
static u64 top_off() { static const uint8_t t[] = { 0, 0, 0, 16, 8, 32, 4, 1, 3, 7, 12, 15, 24 }; return t[choose( sizeof t)]; }
static Frame & top( int i) { return C[i].f.back(); }
// places a call frame below the frame of the running function; returns false when the stack is too full
static bool open_call( u64 fn, int kind, std::vector< u64 > args, bool hidden) {
    Ctx & c = C[me]; Frame & f = top( me); Call & k = f.call; if ( A.win) f.base = r( "%i6") + BIAS;
    u64 argsz = A.stackargs ? ( args.size() + ( hidden ? 1 : 0) ) * W : 0, frame = 64 + choose( 20) * 24, res = A.resv + argsz;
    if ( f.base < c.lo + 2400 + frame + res) return false;
    u64 sp = f.base - frame - res - 4 * W; sp &= ~( A.align - 1); if ( A.align < 16 && choose( 2) ) sp &= ~u64( 15);
    k.on = true; k.id = ++calls; k.kind = kind; k.sp = sp; k.lo = sp + res; k.hi = f.base; k.seed = rnd(); k.hid = 0; k.ret = A_RET + k.id * 16;
    if ( hidden) k.hid = ( sp + res + W) & ~u64( W - 1);
    canary_fill( k); scramble(); set_sp( sp); k.ssp = ssp_(); sh_call( k.ret);
    if ( A.win) { r( "%i6") = f.base - BIAS; r( "%i7") = f.link; }
    std::vector< u64 > v = args;
    if ( A.stackargs) { if ( hidden) v.insert( v.begin(), k.hid); for ( size_t i = 0; i < v.size(); ++i) raw_put( sp + i * W, W, v[i]); }
    else { if ( hidden) v.insert( v.begin(), k.hid); for ( size_t i = 0; i < v.size(); ++i) r( A.args[i]) = v[i]; }
    if ( A.backchain) raw_put( sp, W, f.base);
    if ( A.retaddr) { set_sp( sp - W); raw_put( sp - W, W, k.ret); } else r( A.link) = A.win ? k.ret - 8 : k.ret;
    if ( ! A.fnreg.empty() ) r( A.fnreg) = fn;
    if ( starts( target, "mips64") ) { r( "$gp") = syms["_gp"]; }
    k.sav.clear(); for ( const str & s : A.saved) k.sav.push_back( r( s) ); k.cr = A.crmask ? r( "cr") & A.crmask : 0;
    go( fn); plan_interrupts(); return true;
}
// toc: the table of contents pointer of old POWER is the caller's own after a plain switch, the function's while and after one runs on top
static void saved_check( int i, const std::vector< u64 > & v, u64 cr, const char * w, bool toc = true) {
    for ( size_t k = 0; k < A.saved.size(); ++k) if ( r( A.saved[k]) != v[k] && ! ( A.saved[k] == "r2" && ! toc) ) fail( "registers", "%s: register %s of context %d holds %#llx instead of %#llx", w, A.saved[k].c_str(), i, ll( r( A.saved[k]) ), ll( v[k]) );
    if ( A.crmask && ( r( "cr") & A.crmask) != cr) fail( "registers", "%s: condition fields 2-4 of context %d hold %#llx instead of %#llx", w, i, ll( r( "cr") & A.crmask), ll( cr) );
}
static void close_call( int i, const char * w, bool toc = true) {
    Frame & f = top( i); Call & k = f.call;
    if ( ! k.on || pc != k.ret) fail( "wrong-return", "%s: context %d continues at %#llx instead of at its pending call", w, i, ll( pc) );
    u64 want = k.sp + ( A.calleepops && k.kind != 2 ? W : 0);
    if ( sp_() != want) fail( "registers", "%s: the stack pointer of context %d is off by %lld", w, i, static_cast< long long >( sp_() - want) );
    if ( ssp_() != k.ssp) fail( "shadow-stack", "%s: the shadow stack pointer of context %d is %#llx instead of %#llx", w, i, ll( ssp_() ), ll( k.ssp) );
    saved_check( i, k.sav, k.cr, w, toc); canary_check( i, k); if ( A.backchain && raw_get( k.sp, W) != f.base) fail( "frame-damage", "%s: the back chain of context %d was changed", w, i);
    k.on = false;
}
static u64 result0( Call & k) { return k.hid ? raw_get( k.hid, W) : trunc( r( A.ret[0]), W); }
static u64 result1( Call & k) { return k.hid ? raw_get( k.hid + W, W) : trunc( r( A.ret[1]), W); }

static void record_switch( int from, int to, int kind) {
    C[from].st = SUSP; C[to].st = RUN; C[to].from = from; C[to].exact = false; C[from].exact = false; me = to;
    sim::sched( static_cast< uint32_t >( from), static_cast< uint32_t >( to), static_cast< uint32_t >( kind) ); sim::ev( 1, static_cast< u64 >( from), static_cast< u64 >( to), static_cast< u64 >( kind) );
    u64 st = 0; for ( int i = 0; i < nc; ++i) st = st * 31 + static_cast< u64 >( C[i].st) * 4 + C[i].f.size() % 4; sim::state( st * 8 + static_cast< u64 >( kind) );
}
static void handle_arrived( int from, u64 h, const char * w) {
    Ctx & c = C[from]; u64 s = top( from).call.sp;
    if ( h < c.lo || h >= s) fail( "transfer", "%s: the handle %#llx delivered for context %d is not in the part of its stack that is free there", w, ll( h), from);
    c.h = h;
}
static void arg_pair( u64 & a, u64 & b, u64 & hid, bool ontop) {
    size_t i = 0; u64 s = sp_() + ( A.retaddr ? W : 0); hid = 0;
    if ( ontop && A.rk == HID) { hid = A.stackargs ? raw_get( s, W) : trunc( r( A.args[0]), W); i = 1; }
    if ( A.pass == STK) { a = raw_get( s + i * W, W); b = raw_get( s + ( i + 1) * W, W); }
    else if ( A.pass == REF) { u64 p = trunc( r( A.args[i]), W); if ( ! find( p, 2 * W) ) fail( "transfer", "%s: the values are handed over at address %#llx, which is no memory", doing, ll( p) ); a = raw_get( p, W); b = raw_get( p + W, W); }
    else { a = trunc( r( A.args[i]), W); b = trunc( r( A.args[i + 1]), W); }
}
// arrival in a function (start of a context or a function on top of it): what the calling convention promises it
static void open_frame( int i, Kind kind, const char * w) {
    Ctx & c = C[i]; u64 s = sp_(), e = s + A.entryadj;
    if ( e & ( A.align - 1) ) fail( "alignment", "%s: the stack pointer on entry, %#llx, is not aligned as the platform requires", w, ll( s) );
    if ( s < c.lo || s > c.top) fail( "stack", "%s: a function runs with stack pointer %#llx, outside the stack of context %d", w, ll( s), i);
    u64 ra = A.retaddr ? raw_get( s, W) : r( A.link); u64 own = s + ( A.retaddr ? W : 0);
    if ( own + A.resv > c.top) fail( "stack-bounds", "%s: the %llu bytes above the stack pointer that a function may use by convention do not lie in the stack of context %d", w, ll( A.resv), i);
    if ( kind == ENTRY && A.backchain && raw_get( s, W) != 0) fail( "stack", "%s: the chain of frames of new context %d does not end at its first frame", w, i);
    if ( A.desc && r( "r2") != raw_get( fnptr( pc) + 8, 8) ) fail( "registers", "%s: r2 of context %d does not hold the table of contents of the called function", w, i);
    if ( kind == ENTRY && C[i].top - own > 600) fail( "stack", "%s: %llu bytes of the stack of context %d are lost above the first frame", w, ll( c.top - own), i);
    if ( ! A.fnreg.empty() && r( A.fnreg) != pc) fail( "registers", "%s: %s does not hold the address of the called function", w, A.fnreg.c_str() );
    if ( A.shs && shadow( ssp_(), false, 0) != ra) fail( "shadow-stack", "%s: the function in context %d cannot return: %#llx is not what its shadow stack holds, %#llx", w, i, ll( ra), ll( shadow( ssp_(), false, 0) ) );
    Frame f; f.k = kind; f.sp = s; f.link = ra; f.base = s; f.hid = 0; f.cr = A.crmask ? r( "cr") & A.crmask : 0;
    if ( ! A.win) for ( const str & x : A.saved) f.sav.push_back( r( x) );
    c.f.push_back( f);
}
// the function uses what is its own: the reserved area of its caller and all of the stack below
static void use_stack( int i) {
    Ctx & c = C[i]; Frame & f = top( i); u64 own = f.sp + ( A.retaddr ? W : 0);
    if ( A.backchain) { for ( u64 p = W; p < A.resv; ++p) raw_put( own + p, 1, rnd() ); } else if ( ! A.win) for ( u64 p = 0; p < A.resv; ++p) raw_put( own + p, 1, rnd() );
    if ( A.stackargs) for ( u64 p = 0; p < ( f.hid ? 3u : 2u) * W; ++p) raw_put( own + p, 1, rnd() );
    u64 lo = c.lo; if ( f.sp > lo + 1200) lo = f.sp - 1200; Mem & m = mem[c.m]; for ( u64 p = lo; p < f.sp; ++p) m.b[p - m.lo] = static_cast< uint8_t >( rnd() );
    sh_use( 12);
    if ( A.win) { u64 n = 176 + 16 * choose( 6); r( "%g1") = 0 - n; go( A_SAVE); step(); f.base = r( "%i6") + BIAS; for ( int j = 0; j < 8; ++j) r( "%l" + std::to_string( j) ) = rnd(); }
}
static void arrive( int from, int to, int kind, u64 data) {
    // how did control come to the target?
    Ctx & t = C[to]; bool fresh = t.st == FRESH; record_switch( from, to, kind);
    if ( kind == 1) {
        if ( A.tail && pc == A_TAIL) {     // the library's C++ tail of this target, as compiled: passes { from, data } by reference to the function
            size_t q = A.rk == HID ? 1 : 0; u64 sp = sp_(), lr = r( "lr"), hid = q ? r( "r3") : 0, vp = r( A.args[q + 1]), fn = r( A.args[q + 2]), h = r( A.args[q + 3]); Call & k = top( to).call;
            if ( lr != k.ret || sp != k.sp) fail( "wrong-return", "%s: the tail of the operation on context %d would return to %#llx (stack pointer %#llx) instead of to the pending call: an exception would not reach the caller", doing, to, ll( lr), ll( sp) );
            raw_put( sp + 4, 4, lr); raw_put( sp - 48, 4, sp); set_sp( sp - 48); raw_put( sp - 32, 4, h); raw_put( sp - 28, 4, vp);
            r( "lr") = A_RET + 8; if ( q) { r( "r3") = hid; r( "r4") = sp - 32; } else r( "r3") = sp - 32; go( fn);
        } else if ( A.tail) fail( "wrong-return", "%s: control comes to %#llx instead of the tail of the operation", doing, ll( pc) );
        if ( pc < A_ONTOP || pc >= A_SAVE) fail( "wrong-return", "%s: control comes to %#llx instead of the function to run on top of context %d", doing, ll( pc), to);
        if ( pc != t.fn) fail( "transfer", "%s: another function than the one given is run on top of context %d", doing, to);
        u64 a, b, hid; arg_pair( a, b, hid, true); Call k = top( to).call;
        saved_check( to, k.sav, k.cr, "function on top", false);
        canary_check( to, k); env_check( to, "function on top");
        if ( b != data) fail( "transfer", "%s: function on top of context %d receives data %#llx instead of %#llx", doing, to, ll( b), ll( data) );
        handle_arrived( from, a, doing);
        if ( A.rk == HID && hid != k.hid) fail( "transfer", "%s: function on top of context %d is told to put its result at %#llx instead of %#llx", doing, to, ll( hid), ll( k.hid) );
        u64 fsp = sp_(); if ( fsp > k.sp) fail( "stack", "%s: function on top of context %d runs above that context's pending frame", doing, to);
        u64 ra = A.retaddr ? raw_get( fsp, W) : r( A.link); if ( A.win) ra += 8;
        if ( ! A.tail && ra != k.ret) fail( "wrong-return", "%s: function on top of context %d would return to %#llx instead of to the pending call: an exception it throws would not reach the caller", doing, to, ll( ra) );
        open_frame( to, ONTOP, doing); top( to).hid = hid; use_stack( to); t.started = true; sim::cov( "ontop"); t.lasth = a;
        return;
    }
    if ( fresh) {
        if ( pc != t.fn) fail( "wrong-return", "%s: new context %d starts at %#llx instead of at its function", doing, to, ll( pc) );
        u64 a, b, hid; arg_pair( a, b, hid, false);
        if ( b != data) fail( "transfer", "%s: new context %d receives data %#llx instead of %#llx", doing, to, ll( b), ll( data) );
        handle_arrived( from, a, doing); env_check( to, "start");
        open_frame( to, ENTRY, doing); use_stack( to); t.started = true; sim::cov( "start"); t.lasth = a;
        if ( A.guard && A.tib == "tls") t.guard = raw_get( M_TLS + A.guard, W);
        return;
    }
    Call k = top( to).call; close_call( to, doing); env_check( to, "resume");
    u64 a = result0( k), b = result1( k);
    if ( A.hidret && trunc( r( A.ret[0]), W) != k.hid) fail( "transfer", "%s: the address of the result returned to context %d is %#llx instead of %#llx", doing, to, ll( r( A.ret[0]) ), ll( k.hid) );
    if ( b != data) fail( "transfer", "%s: context %d receives data %#llx instead of %#llx", doing, to, ll( b), ll( data) );
    handle_arrived( from, a, doing); t.lasth = a; sim::cov( "resume");
}
static void check_all() { for ( int i = 0; i < nc; ++i) { guards_check( i); if ( C[i].st == SUSP || C[i].st == RUN) for ( Frame & f : C[i].f) if ( f.call.on) canary_check( i, f.call); } }

static void make_stack( int i, u64 size, u64 off) {
    Ctx & c = C[i]; if ( c.m == 0 && i != 0) { Mem m; m.lo = M_STACK + u64( i) * 0x100000; m.hi = m.lo + 0x6000; m.b.assign( m.hi - m.lo, 0x5C); m.owner = i; m.ro = false; mem.push_back( m); c.m = mem.size() - 1; }
    Mem & m = mem[c.m]; c.top = m.hi - 256 - off; c.lo = c.top - size; for ( u64 p = m.lo; p < m.hi; ++p) m.b[p - m.lo] = p >= c.lo && p < c.top ? static_cast< uint8_t >( rnd() ) : 0x5C;
}
static void op_make() {
    int i = -1; for ( int j = 1; j < nc; ++j) if ( C[j].st == FREE || C[j].st == DONE) i = j; if ( i < 0) { if ( nc >= MAXC) return; i = nc; }
    Ctx & c = C[i]; bool odd = knob( "odd", 1) != 0; u64 size = 6000 + choose( 8) * 1001, off = odd ? top_off() : 0; if ( ! odd) size &= ~u64( 15);
    size_t m = c.m; c = Ctx(); c.m = m; doing = "make"; from_c = me; to_c = i; if ( i >= nc) nc = i + 1;
    make_stack( i, size, off);
    if ( A.shs) { for ( u64 a = sh_top( i) - 0x1000; a < sh_top( i); a += 8) sh[a] = 0; sh[sh_top( i) - 8] = sh_top( i) | 1; raw_put( c.top - 8, 8, sh_top( i) ); }
    u64 fn = A_ENTRY + 16 * choose( 64); c.fn = fn;
    if ( ! open_call( syms["make_fcontext"], 2, { c.top, size, fnptr( fn) }, false) ) { c.st = FREE; return; }
    if ( syms.count( "_gp") ) c.gp = r( "$gp");
    run(); if ( pc < A_RET || pc >= A_ENTRY) fail( "wrong-return", "make: does not return to its caller");
    u64 h = trunc( r( A.ret[0].empty() ? ( starts( target, "s390") ? "%r2" : "r0") : A.ret[0]), W); close_call( me, doing); env_check( me, "make");
    if ( h < c.lo || h >= c.top) fail( "transfer", "make: the handle %#llx is not within the stack of new context %d", ll( h), i);
    c.h = h; c.st = FRESH; env_new( c, C[me], c.top, size); guards_check( i);
    for ( auto & f : A.flds) if ( f.kind == 4) { u64 p = C[me].tib[f.off]; while ( raw_get( p, W) != 0xffffffff) p = raw_get( p, W); c.tib[SEHH] = raw_get( p + W, W); }
    sim::ev( 2, static_cast< u64 >( i) ); sim::cov( "make");
}
static u64 pick_data() { switch ( choose( 4) ) { case 0: return 0; case 1: return trunc( ~u64( 0), W); default: return trunc( rnd(), W); } }
static bool op_jump( bool ontop) {
    std::vector< int > v; for ( int i = 0; i < nc; ++i) if ( i != me && ( C[i].st == SUSP || ( C[i].st == FRESH && ! ontop) ) ) v.push_back( i);
    if ( v.empty() ) return false; int to = v[choose( static_cast< uint32_t >( v.size() ) )]; int from = me; u64 data = pick_data(); from_c = from; to_c = to; doing = ontop ? "ontop" : "jump";
    std::vector< u64 > args = { C[to].h, data }; if ( ontop) { C[to].fn = A_ONTOP + 16 * choose( 64); args.push_back( fnptr( C[to].fn) ); }
    if ( ! open_call( syms[ontop ? "ontop_fcontext" : "jump_fcontext"], ontop ? 1 : 0, args, A.rk == HID) ) return false;
    sim::note( "%s %d -> %d data %#llx", doing, from, to, ll( data) );
    run(); arrive( from, to, ontop ? 1 : 0, data); return true;
}
// the function on top of the running context returns
static bool op_return() {
    Frame f = top( me); if ( f.k != ONTOP) return false; doing = "return of a function on top"; from_c = to_c = me; Ctx & c = C[me];
    u64 a = choose( 2) ? c.lasth : trunc( rnd(), W), b = pick_data(); u64 s = f.sp;
    canary_check( me, c.f[c.f.size() - 2].call);
    scramble();
    if ( A.win) { r( "%i0") = a; r( "%i1") = b; r( "%i6") = f.base - BIAS; r( "%i7") = f.link; set_sp( f.base - 176 - 64); go( A_SAVE + 4); step(); go( r( "%o7") + 8); }
    else {
        for ( size_t k = 0; k < A.saved.size(); ++k) r( A.saved[k]) = f.sav[k]; if ( A.crmask) r( "cr") = ( r( "cr") & ~A.crmask) | f.cr;
        set_sp( s);
        if ( A.rk == HID) { raw_put( f.hid, W, a); raw_put( f.hid + W, W, b); if ( A.hidret) r( A.ret[0]) = f.hid; } else { r( A.ret[0]) = a; r( A.ret[1]) = b; }
        if ( A.retaddr) set_sp( s + W + ( A.calleepops ? W : 0) );
        sh_ret( f.link); go( f.link);
    }
    c.f.pop_back(); plan_interrupts();
    if ( A.tail && pc == A_RET + 8) { u64 sp = s + 48; set_sp( sp); go( raw_get( sp + 4, 4) ); }
    run(); Call k = top( me).call; close_call( me, doing, false); env_check( me, doing);
    u64 x = result0( k), y = result1( k); if ( x != a || y != b) fail( "transfer", "%s: the pending call of context %d yields %#llx, %#llx instead of %#llx, %#llx", doing, me, ll( x), ll( y), ll( a), ll( b) );
    if ( A.hidret && trunc( r( A.ret[0]), W) != k.hid) fail( "transfer", "%s: wrong address of the result", doing);
    sim::ev( 3, static_cast< u64 >( me) ); sim::cov( "ontop_return"); return true;
}
// the function a context was made with returns: the program ends with exit code 0
static bool op_finish() {
    Frame f = top( me); if ( f.k != ENTRY) return false; doing = "return of a context function"; from_c = to_c = me; Ctx & c = C[me];
    scramble();
    if ( A.win) { r( "%i6") = f.base - BIAS; r( "%i7") = f.link; set_sp( f.base - 176 - 64); go( A_SAVE + 4); step(); go( r( "%o7") + 8); }
    else { for ( size_t k = 0; k < A.saved.size(); ++k) r( A.saved[k]) = f.sav[k]; if ( A.crmask) r( "cr") = ( r( "cr") & ~A.crmask) | f.cr; set_sp( f.sp + ( A.retaddr ? W : 0) ); sh_ret( f.link); go( f.link); }
    plan_interrupts(); run();
    if ( pc != A_EXIT) fail( "finish", "%s: control comes to %#llx instead of _exit", doing, ll( pc) );
    u64 s = sp_(), v = A.stackargs ? raw_get( s + W, W) : r( A.args[0]);
    if ( static_cast< uint32_t >( v) != 0) fail( "finish", "%s: the program ends with exit code %#llx instead of 0", doing, ll( v) );
    if ( ( s + A.entryadj) & ( A.align - 1) ) fail( "finish", "%s: _exit is called with misaligned stack pointer %#llx", doing, ll( s) );
    if ( s < c.lo || s + ( A.retaddr ? W : 0) + A.resv > c.top) fail( "finish", "%s: _exit is called with stack pointer %#llx, outside the stack", doing, ll( s) );
    if ( ! A.fnreg.empty() && A.fnreg[0] == '$' && r( A.fnreg) != pc) fail( "finish", "%s: _exit is called without its address in %s", doing, A.fnreg.c_str() );
    if ( starts( target, "mips64") && r( "$gp") != c.gp) fail( "finish", "%s: _exit is called with the wrong global pointer", doing);
    env_check( me, doing); sim::ev( 4, static_cast< u64 >( me) ); sim::cov( "finish"); return true;
}
static void simulate() {
    nc = 1; me = 0; Ctx & c = C[0]; c.st = RUN; c.started = true; from_c = to_c = 0; doing = "setup";
    { Mem m; m.lo = M_STACK; m.hi = m.lo + 0x10000; m.b.assign( 0x10000, 0); m.owner = 0; m.ro = false; mem.push_back( m); c.m = 0; c.lo = m.lo; c.top = m.hi; for ( Mem & q : segs) mem.push_back( q); }
    if ( ! A.tib.empty() ) { Mem m; m.lo = A.tib == "tls" ? u64( M_TLS) : u64( M_TIB); m.hi = m.lo + A.tibsize; m.b.assign( A.tibsize, 0); m.owner = -1; m.ro = false; mem.push_back( m); }
    if ( A.desc) { Mem m; m.lo = M_DESC; m.hi = m.lo + 0x4000; m.b.assign( 0x4000, 0); m.owner = -1; m.ro = true; mem.push_back( m); }
    sh.clear(); if ( A.shs) { r( "ssp") = sh_top( 0) - 128; }
    scramble(); Frame f; f.k = MAIN; f.base = c.top - 512; f.sp = f.base; f.link = A_RET + 4; f.hid = 0; f.cr = 0; c.f.push_back( f);
    for ( const str & s : A.fp) { u64 v = fpval( s); c.fp.push_back( v); r( s) = v; }
    u64 tb = A.tib == "tls" ? u64( M_TLS) : u64( M_TIB); if ( ! A.tib.empty() && A.tib != "tls") r( A.tib) = tb;
    if ( A.guard) { c.guard = trunc( rnd(), W); raw_put( tb + A.guard, W, c.guard); }
    if ( ! A.flds.empty() ) { raw_put( tb + ( W == 8 ? 0x30 : 0x18), W, tb); for ( auto & q : A.flds) { u64 v = q.kind == 0 ? c.top : q.kind == 3 ? rnd() : c.lo; if ( q.kind == 4) { u64 p = c.top - 64; raw_put( p, W, p + 16); raw_put( p + W, W, 0x7001); raw_put( p + 16, W, 0xffffffff); raw_put( p + 16 + W, W, 0x7002); v = p; } v = trunc( v, W); c.tib[q.off] = v; raw_put( tb + q.off, W, v); } }
    if ( A.win) { r( "%i6") = f.base - BIAS; }
    if ( starts( target, "mips64") ) r( "$gp") = syms["_gp"];
    long steps = knob( "steps", 60), maxlive = knob( "maxlive", 5);
    for ( long n = 0; n < steps; ++n) {
        sim::block(); uint32_t w = choose( 100); int live = 0; for ( int i = 1; i < nc; ++i) live += C[i].st == FRESH || C[i].st == SUSP;
        if ( live == 0 || ( w >= 85 && live < maxlive) ) { op_make(); }
        else if ( w < 38) op_jump( false);
        else if ( w < 58) op_jump( true);
        else if ( w < 74) { if ( ! op_return() ) op_jump( false); }
        else if ( w < 82) env_change();
        else if ( w < 84) { std::vector< int > v; for ( int i = 1; i < nc; ++i) if ( i != me && ( C[i].st == SUSP || C[i].st == FRESH) ) v.push_back( i); if ( ! v.empty() ) { int i = v[choose( static_cast< uint32_t >( v.size() ) )]; C[i].st = DONE; sim::ev( 5, static_cast< u64 >( i) ); } }
        else if ( w == 84) { if ( op_finish() ) break; }
        else op_jump( choose( 2) != 0);
        check_all();
    }
    check_all();
}
void sim_world() {
    serial = 88172645463325252ull; calls = 0; ninstr = 0; serial += choose( 1u << 16);
    long nop = knob( "selftest_nop", -1);          // sensitivity measurement: one instruction of the listing does nothing
    if ( nop >= 0 && nop < static_cast< long >( code.size() ) ) { sim::note( "without: %s", code[static_cast< size_t >( nop)].text.c_str() ); code[static_cast< size_t >( nop)].f = []() {}; }
    try { simulate(); }
    catch ( Unsupported & u) { sim::cov( "given_up"); sim::note( "given up, the stand-in processor does not know: %s", u.what.c_str() ); }
}
void sim_zygote_init() {
    load_listing( isa_listing); if ( target == "sparc64") load_listing( "ins 43000000 0 save %sp, %g1, %sp\nins 43000004 0 restore \n"); abi_init();
    std::string l = isa_listing; size_t p = 0;
    while ( ( p = l.find( "\nseg ", p) ) != std::string::npos) { p += 5; char * e; u64 a = strtoull( l.c_str() + p, & e, 16); ++e; Mem m; m.lo = a; m.owner = -1; m.ro = true; while ( isxdigit( e[0]) ) { m.b.push_back( static_cast< uint8_t >( strtoul( std::string( e, 2).c_str(), nullptr, 16) ) ); e += 2; } m.hi = a + m.b.size(); segs.push_back( m); }
}
void sim_final_checks() {}
