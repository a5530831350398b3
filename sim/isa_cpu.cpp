#include "isa_cpu.hpp"
#include <cstring>
#include <sstream>
#include <algorithm>
namespace isa {
std::vector< u64 > R; std::map< str, int > names; u64 pc = 0, npc = 0, cur = 0; int W = 8; bool be = false, delay = false;
std::vector< Win > wins; std::vector< Ins > code; std::map< u64, size_t > index_of; std::map< str, u64 > syms; str target;
typedef std::function< void() > F; typedef std::function< u64() > G; typedef std::function< void( u64) > S;

static std::vector< str > ops( const str & t) {
    std::vector< str > v; str c; int d = 0;
    for ( char ch : t) { if ( ch == '(' || ch == '[' || ch == '{') ++d; if ( ch == ')' || ch == ']' || ch == '}') --d; if ( ch == ',' && d == 0) { v.push_back( c); c.clear(); } else if ( ch != ' ' || ! c.empty() ) c += ch; }
    if ( ! c.empty() || ! v.empty() ) v.push_back( c);
    for ( str & s : v) while ( ! s.empty() && s.back() == ' ') s.pop_back();
    return v;
}
static bool is( const str & m, const char * list) { str l = str( " ") + list + " "; return l.find( " " + m + " ") != str::npos; }
static int64_t num( str s) {
    if ( ! s.empty() && ( s[0] == '#' || s[0] == '$') ) s = s.substr( 1);
    char * e; int64_t v = s[0] == '-' ? -static_cast< int64_t >( strtoull( s.c_str() + 1, & e, 0) ) : static_cast< int64_t >( strtoull( s.c_str(), & e, 0) );
    if ( s.empty() || * e) throw Unsupported{ "number " + s};
    return v;
}
static bool isnum( const str & s) { return ! s.empty() && ( s[0] == '#' || s[0] == '-' || isdigit( s[0]) ); }
static void jump( u64 a) { if ( delay) npc = a; else pc = a; }
static int64_t sx( u64 v, int bits) { return static_cast< int64_t >( v << ( 64 - bits) ) >> ( 64 - bits); }

// ---- x86 -----------------------------------------------------------------------
static const char * const LOW32[16][2] = { {"eax","rax"},{"ebx","rbx"},{"ecx","rcx"},{"edx","rdx"},{"esi","rsi"},{"edi","rdi"},{"ebp","rbp"},{"esp","rsp"},{"r8d","r8"},{"r9d","r9"},{"r10d","r10"},{"r11d","r11"},{"r12d","r12"},{"r13d","r13"},{"r14d","r14"},{"r15d","r15"} };
static str wide( const str & n, int & w) { if ( W == 8) { for ( auto & p : LOW32) if ( n == p[0]) { w = 4; return p[1]; } w = 8; } else w = 4; if ( n.substr( 0, 3) == "xmm") w = 16; return n; }
static G x86_ea( str s) {
    str seg; if ( s[0] == '%') { seg = s.substr( 1, 2); s = s.substr( 4); }
    size_t p = s.find( '('); str disp = s.substr( 0, p); u64 d = disp.empty() ? 0 : static_cast< u64 >( num( disp) );
    std::vector< str > q; if ( p != str::npos) q = ops( s.substr( p + 1, s.size() - p - 2) );
    int b = -1, x = -1; u64 sc = 1; bool rip = false; int w;
    if ( q.size() > 0 && ! q[0].empty() ) { if ( q[0] == "%rip") rip = true; else b = reg( wide( q[0].substr( 1), w) ); }
    if ( q.size() > 1 && ! q[1].empty() ) x = reg( wide( q[1].substr( 1), w) );
    if ( q.size() > 2) sc = static_cast< u64 >( num( q[2]) );
    int sg = seg.empty() ? -1 : reg( "seg_" + seg);
    return [=]() { u64 a = d; if ( rip) a += pc; if ( b >= 0) a += R[b]; if ( x >= 0) a += R[x] * sc; if ( sg >= 0) a += R[sg]; return trunc( a, W); };
}
static int x86_width( const str & m, const std::vector< str > & o) {
    for ( auto & s : o) if ( s[0] == '%' && s.find( ':') == str::npos) { int w; wide( s.substr( 1), w); return w; }
    return m.back() == 'q' ? 8 : m.back() == 'l' ? 4 : W;
}
static G x86_get( const str & s, int n) {
    if ( s[0] == '$') { u64 v = trunc( static_cast< u64 >( num( s) ), n); return [=]() { return v; }; }
    if ( s[0] == '%' && s.find( ':') == str::npos) { int w; int i = reg( wide( s.substr( 1), w) ); return [=]() { return trunc( R[i], n); }; }
    G ea = x86_ea( s); return [=]() { return load( ea(), n); };
}
static S x86_set( const str & s, int n) {
    if ( s[0] == '%' && s.find( ':') == str::npos) { int w; int i = reg( wide( s.substr( 1), w) ); return [=]( u64 v) { R[i] = trunc( v, n); }; }
    G ea = x86_ea( s); return [=]( u64 v) { store( ea(), n, trunc( v, n) ); };
}
static F x86( const str & m, const std::vector< str > & o, u64 base) {
    int sp = reg( W == 8 ? "rsp" : "esp"), zf = reg( "zf");
    if ( is( m, "nop nopl nopw endbr64 endbr32") ) return []() {};
    bool shs = target.find( "shstk") != str::npos; int ssp = shs ? reg( "ssp") : 0;
    if ( shs && is( m, "rdsspq incsspq") ) { int i = reg( o[0].substr( 1) ); if ( m == "rdsspq") return [=]() { R[i] = R[ssp]; }; return [=]() { u64 n = R[i] & 0xff; if ( n) { shadow( R[ssp], false, 0); shadow( R[ssp] + 8 * ( n - 1), false, 0); } R[ssp] += 8 * n; }; }
    // the token at the address is exchanged for one that names the old shadow stack; saveprevssp takes that one off and leaves a token there
    if ( shs && m == "rstorssp") { G ea = x86_ea( o[0]); return [=]() { u64 a = ea(), t = shadow( a, false, 0); if ( t != ( ( a + 8) | 1) ) shadow( 1, false, t); shadow( a, true, R[ssp] | 3); R[ssp] = a; }; }
    if ( shs && m == "saveprevssp") return [=]() { u64 t = shadow( R[ssp], false, 0); if ( ( t & 3) != 3) shadow( 2, false, t); R[ssp] += 8; u64 old = t & ~u64( 3); shadow( old - 8, true, old | 1); };
    if ( is( m, "hlt int3 ud2") ) return []() { load( 2, 16); };
    if ( is( m, "movaps movups movdqa movdqu") ) {
        auto xr = []( const str & s) { return reg( s.substr( 1) ); };
        if ( o[0].substr( 0, 4) == "%xmm" && o[1].substr( 0, 4) == "%xmm") { int a = xr( o[0]), b = xr( o[1]), ah = reg( o[0].substr( 1) + "h"), bh = reg( o[1].substr( 1) + "h"); return [=]() { R[b] = R[a]; R[bh] = R[ah]; }; }
        bool st = o[0].substr( 0, 4) == "%xmm"; int a = xr( st ? o[0] : o[1]), ah = reg( ( st ? o[0] : o[1]).substr( 1) + "h"); G ea = x86_ea( st ? o[1] : o[0]); bool al = m == "movaps" || m == "movdqa";
        return [=]() { u64 p = ea(); if ( al && p % 16) load( 1, 16); if ( st) { store( p, 8, R[a]); store( p + 8, 8, R[ah]); } else { R[a] = load( p, 8); R[ah] = load( p + 8, 8); } };
    }
    if ( is( m, "stmxcsr ldmxcsr fnstcw fldcw") ) { G ea = x86_ea( o[0]); int c = reg( m == "stmxcsr" || m == "ldmxcsr" ? "mxcsr" : "x87cw"), n = m == "stmxcsr" || m == "ldmxcsr" ? 4 : 2; if ( m[0] == 's' || m == "fnstcw") return [=]() { store( ea(), n, R[c]); }; return [=]() { R[c] = load( ea(), n); }; }
    if ( is( m, "movq movl mov movabsq") ) { int n = x86_width( m, o); G g = x86_get( o[0], n); S s = x86_set( o[1], n); return [=]() { s( g() ); }; }
    if ( is( m, "leaq leal") ) { G ea = x86_ea( o[0]); int n = x86_width( m, o); S s = x86_set( o[1], n); return [=]() { s( ea() ); }; }
    if ( is( m, "pushq pushl") ) { G g = x86_get( o[0], W); return [=]() { u64 v = g(); R[sp] = trunc( R[sp] - W, W); store( R[sp], W, v); }; }
    if ( is( m, "popq popl") ) { S s = x86_set( o[0], W); return [=]() { u64 v = load( R[sp], W); R[sp] = trunc( R[sp] + W, W); s( v); }; }
    if ( is( m, "andq andl addq addl subq subl orq orl xorq xorl cmpq cmpl testq testl") ) {
        int n = x86_width( m, o); G a = x86_get( o[0], n), b = x86_get( o[1], n); S s = x86_set( o[1], n); str k = m.substr( 0, m.size() - 1);
        return [=]() { u64 x = a(), y = b(), v = k == "and" || k == "test" ? x & y : k == "add" ? y + x : k == "or" ? y | x : k == "xor" ? y ^ x : y - x; v = trunc( v, n); R[zf] = v == 0; if ( k != "cmp" && k != "test") s( v); };
    }
    if ( is( m, "negq negl incl incq decl decq notq notl") ) { int n = x86_width( m, o); G g = x86_get( o[0], n); S s = x86_set( o[0], n); char c = m[0]; bool no = m.substr( 0, 3) == "not"; return [=]() { u64 v = g(); v = trunc( no ? ~v : c == 'n' ? 0 - v : c == 'i' ? v + 1 : v - 1, n); if ( ! no) R[zf] = v == 0; s( v); }; }
    if ( is( m, "xchgl xchgq") ) { int n = x86_width( m, o); G a = x86_get( o[0], n), b = x86_get( o[1], n); S s = x86_set( o[0], n), t = x86_set( o[1], n); return [=]() { u64 x = a(), y = b(); s( y); t( x); }; }
    if ( is( m, "je jne jz jnz") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); bool e = m == "je" || m == "jz"; return [=]() { if ( ( R[zf] != 0) == e) jump( t); }; }
    if ( is( m, "jmp jmpq jmpl callq calll call") ) {
        bool call = m[0] == 'c'; G g;
        if ( o[0][0] == '*') g = x86_get( o[0].substr( 1), W); else { u64 t = base + static_cast< u64 >( num( o[0]) ); g = [=]() { return t; }; }
        return [=]() { u64 t = g(); if ( call) { if ( shs && t != pc) { R[ssp] -= 8; shadow( R[ssp], true, pc); } R[sp] = trunc( R[sp] - W, W); store( R[sp], W, pc); } jump( t); };
    }
    if ( is( m, "retq retl ret") ) { u64 k = o.empty() ? 0 : static_cast< u64 >( num( o[0]) ); return [=]() { u64 t = load( R[sp], W); if ( shs) { if ( shadow( R[ssp], false, 0) != t) shadow( 3, false, t); R[ssp] += 8; } R[sp] += W + k; jump( t); }; }
    throw Unsupported{ m};
}
// ---- the 64-bit Arm ----------------------------------------------------------------
static F arm64( const str & m, const std::vector< str > & o, u64 base) {
    auto rn = []( const str & s) { if ( s[0] == 'w' && s != "wzr" && s != "wsp") return reg( "x" + s.substr( 1) ); if ( s == "wzr") return reg( "xzr"); return reg( s); };
    auto wd = []( const str & s) { return s[0] == 'w' || s[0] == 's' && s != "sp" ? 4 : 8; };
    auto rd = [=]( const str & s) -> G { if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = rn( s); bool z = s == "xzr" || s == "wzr"; int n = wd( s); return [=]() { return z ? 0 : trunc( R[i], n); }; };
    auto wr = [=]( const str & s) -> S { int i = rn( s); bool z = s == "xzr" || s == "wzr"; int n = wd( s); return [=]( u64 v) { if ( ! z) R[i] = trunc( v, n); }; };
    if ( is( m, "nop bti paciasp autiasp hint dmb isb dsb") ) return []() {};
    if ( is( m, "stp ldp str ldr stur ldur") ) {
        bool pair = m.back() == 'p'; size_t mi = pair ? 2 : 1; if ( o.size() <= mi || o[mi][0] != '[') throw Unsupported{ m};
        str a = o[mi]; bool pre = a.back() == '!'; if ( pre) a.pop_back(); std::vector< str > q = ops( a.substr( 1, a.size() - 2) ); int b = reg( q[0]); int64_t d = 0; if ( q.size() > 1) d = num( q[1]); int64_t post = o.size() > mi + 1 ? num( o[mi + 1]) : 0; int n = wd( o[0]);
        bool st = m[0] == 's'; G g0 = rd( o[0]), g1 = pair ? rd( o[1]) : g0; S s0 = wr( o[0]), s1 = pair ? wr( o[1]) : s0;
        return [=]() { if ( ( R[b] & 15) && q[0] == "sp") load( 1, 16); u64 e = R[b] + d; u64 x = st ? g0() : load( e, n), y = pair ? ( st ? g1() : load( e + n, n) ) : 0; if ( pre) R[b] = e; if ( post) R[b] += post;
            if ( st) { store( e, n, x); if ( pair) store( e + n, n, y); } else { s0( x); if ( pair) s1( y); } };
    }
    if ( is( m, "add sub and orr eor bic") && o.size() == 3) { G a = rd( o[1]), b = rd( o[2]); S s = wr( o[0]); str k = m; return [=]() { u64 x = a(), y = b(); s( k == "add" ? x + y : k == "sub" ? x - y : k == "and" ? x & y : k == "orr" ? x | y : k == "bic" ? x & ~y : x ^ y); }; }
    if ( is( m, "mov movz fmov") && o.size() == 2) { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( a() ); }; }
    if ( m == "adr") { u64 t = base + static_cast< u64 >( num( o[1]) ); S s = wr( o[0]); return [=]() { s( t); }; }
    if ( is( m, "b bl") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); bool l = m == "bl"; int lr = reg( "x30"); return [=]() { if ( l) R[lr] = pc; jump( t); }; }
    if ( is( m, "br blr ret") ) { G a = rd( o.empty() ? "x30" : o[0]); bool l = m == "blr"; int lr = reg( "x30"); return [=]() { u64 t = a(); if ( l) R[lr] = pc; jump( t); }; }
    if ( is( m, "cbz cbnz") ) { G a = rd( o[0]); u64 t = base + static_cast< u64 >( num( o[1]) ); bool z = m == "cbz"; return [=]() { if ( ( a() == 0) == z) jump( t); }; }
    throw Unsupported{ m};
}
// ---- the 32-bit Arm ----------------------------------------------------------------
static F arm( const str & m, const std::vector< str > & o, u64 base) {
    auto rd = []( const str & s) -> G { if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = reg( s); bool p = s == "pc"; return [=]() { return p ? cur + 8 : R[i]; }; };
    auto wr = []( const str & s) -> S { int i = reg( s); bool p = s == "pc"; return [=]( u64 v) { if ( p) jump( trunc( v, 4) & ~u64( 1) ); else R[i] = trunc( v, 4); }; };
    auto list = []( const str & s) { return ops( s.substr( 1, s.size() - 2) ); };
    int sp = reg( "sp"), lr = reg( "lr");
    if ( is( m, "nop") ) return []() {};
    if ( m == "push") { auto l = list( o[0]); std::vector< G > g; for ( auto & s : l) g.push_back( rd( s) ); return [=]() { R[sp] -= 4 * g.size(); for ( size_t i = 0; i < g.size(); ++i) store( R[sp] + 4 * i, 4, g[i]() ); }; }
    if ( m == "pop") { auto l = list( o[0]); std::vector< S > g; for ( auto & s : l) g.push_back( wr( s) ); return [=]() { u64 a = R[sp]; R[sp] += 4 * g.size(); for ( size_t i = 0; i < g.size(); ++i) g[i]( load( a + 4 * i, 4) ); }; }
    if ( is( m, "vstmia vldmia stm ldm stmia ldmia vpush vpop") ) {
        bool st = m.find( "st") != str::npos || m == "vpush", pp = m == "vpush" || m == "vpop"; str b = pp ? "sp" : o[0]; bool wb = pp || b.back() == '!'; if ( b.back() == '!') b.pop_back(); int bi = reg( b); auto l = list( o[pp ? 0 : 1]); int n = l[0][0] == 'd' ? 8 : 4; std::vector< int > x; for ( auto & s : l) { if ( s == "pc") throw Unsupported{ m}; x.push_back( reg( s) ); }
        return [=]() { u64 a = R[bi]; if ( m == "vpush") a -= n * x.size(); for ( size_t i = 0; i < x.size(); ++i) { if ( st) store( a + n * i, n, R[x[i]]); else R[x[i]] = load( a + n * i, n); } if ( wb) R[bi] = m == "vpush" ? a : a + n * x.size(); };
    }
    if ( is( m, "str ldr") ) {
        str a = o[1]; bool pre = a.back() == '!'; if ( pre) a.pop_back(); if ( a[0] != '[') throw Unsupported{ m}; auto q = ops( a.substr( 1, a.size() - 2) ); int b = reg( q[0]); if ( q[0] == "pc") throw Unsupported{ m}; int64_t d = q.size() > 1 ? num( q[1]) : 0, post = o.size() > 2 ? num( o[2]) : 0; G g = rd( o[0]); S s = wr( o[0]); bool st = m == "str";
        return [=]() { u64 e = trunc( R[b] + d, 4); u64 v = st ? g() : load( e, 4); if ( pre) R[b] = e; if ( post) R[b] = trunc( R[b] + post, 4); if ( st) store( e, 4, v); else s( v); };
    }
    if ( is( m, "add sub and orr eor bic") ) { G a = rd( o[o.size() == 3 ? 1 : 0]), b = rd( o.back() ); S s = wr( o[0]); str k = m; return [=]() { u64 x = a(), y = b(); s( k == "add" ? x + y : k == "sub" ? x - y : k == "and" ? x & y : k == "orr" ? x | y : k == "bic" ? x & ~y : x ^ y); }; }
    if ( is( m, "mov movw") ) { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( a() ); }; }
    if ( m == "mvn") { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( ~a() ); }; }
    if ( m == "movt") { u64 h = static_cast< u64 >( num( o[1]) ) << 16; int i = reg( o[0]); return [=]() { R[i] = ( R[i] & 0xffff) | h; }; }
    if ( m == "adr") { u64 t = base + static_cast< u64 >( num( o[1]) ); S s = wr( o[0]); return [=]() { s( t); }; }
    if ( is( m, "bx blx") && ! isnum( o[0]) ) { G a = rd( o[0]); bool l = m == "blx"; return [=]() { u64 t = a() & ~u64( 1); if ( l) R[lr] = pc; jump( t); }; }
    if ( is( m, "b bl") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); bool l = m == "bl"; return [=]() { if ( l) R[lr] = pc; jump( t); }; }
    if ( m == "mrc") { if ( o.size() < 6 || o[3] != "c13") throw Unsupported{ m}; S s = wr( o[2]); str w = "c13_" + o[5].substr( 1); return [=]() { s( trap_register( w) ); }; }
    throw Unsupported{ m};
}
// "disp(base)"
static bool base_disp( const str & s, str & b, int64_t & d) { size_t p = s.find( '('); if ( p == str::npos || s.back() != ')') return false; b = s.substr( p + 1, s.size() - p - 2); d = p ? num( s.substr( 0, p) ) : 0; return true; }
// ---- RISC-V, LoongArch, MIPS ---------------------------------------------------------
static F riscv( const str & m0, const std::vector< str > & o, u64 base) {
    str m = m0.substr( 0, 2) == "c." ? m0.substr( 2) : m0;
    auto rd = []( const str & s) -> G { if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = reg( s == "fp" ? "s0" : s); bool z = s == "zero"; return [=]() { return z ? 0 : R[i]; }; };
    auto wr = []( const str & s) -> S { int i = reg( s == "fp" ? "s0" : s); bool z = s == "zero"; return [=]( u64 v) { if ( ! z) R[i] = v; }; };
    if ( is( m, "nop fence") ) return []() {};
    if ( is( m, "sd fsd sw") ) { str b; int64_t d; if ( ! base_disp( o[1], b, d) ) throw Unsupported{ m}; G g = rd( o[0]), a = rd( b); int n = m == "sw" ? 4 : 8; return [=]() { store( a() + d, n, trunc( g(), n) ); }; }
    if ( is( m, "ld fld lw") ) { str b; int64_t d; if ( ! base_disp( o[1], b, d) ) throw Unsupported{ m}; S s = wr( o[0]); G a = rd( b); bool w = m == "lw"; return [=]() { u64 v = load( a() + d, w ? 4 : 8); s( w ? static_cast< u64 >( sx( v, 32) ) : v); }; }
    if ( is( m, "addi add sub and andi or ori xor xori") ) { G a = rd( o[1]), b = rd( o[2]); S s = wr( o[0]); str k = m; return [=]() { u64 x = a(), y = b(); s( k[0] == 'a' && k[1] == 'd' ? x + y : k == "sub" ? x - y : k[0] == 'a' ? x & y : k[0] == 'o' ? x | y : x ^ y); }; }
    if ( is( m, "mv li") ) { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( a() ); }; }
    if ( m == "lui") { u64 v = static_cast< u64 >( sx( static_cast< u64 >( num( o[1]) ) << 12, 32) ); S s = wr( o[0]); return [=]() { s( v); }; }
    if ( m == "auipc") { u64 v = static_cast< u64 >( sx( static_cast< u64 >( num( o[1]) ) << 12, 32) ); S s = wr( o[0]); return [=]() { s( cur + v); }; }
    if ( m == "ret") { int a = reg( "ra"); return [=]() { jump( R[a]); }; }
    if ( is( m, "jr jalr") ) {
        bool l = m == "jalr"; str t = o.back(), b; int64_t d = 0; if ( ! base_disp( t, b, d) ) b = t; G a = rd( b); S s = wr( l ? ( o.size() > 1 ? o[0] : "ra") : "zero"); return [=]() { u64 x = a() + d; s( pc); jump( x); };
    }
    if ( is( m, "j jal") ) { u64 t = base + static_cast< u64 >( num( o.back() ) ); S s = wr( m == "jal" ? ( o.size() > 1 ? o[0] : "ra") : "zero"); return [=]() { s( pc); jump( t); }; }
    if ( is( m, "beqz bnez") ) { G a = rd( o[0]); u64 t = base + static_cast< u64 >( num( o[1]) ); bool z = m == "beqz"; return [=]() { if ( ( a() == 0) == z) jump( t); }; }
    throw Unsupported{ m};
}
static F loong( const str & m, const std::vector< str > & o, u64 base) {
    auto rd = []( const str & s) -> G { if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = reg( s); bool z = s == "$zero"; return [=]() { return z ? 0 : R[i]; }; };
    auto wr = []( const str & s) -> S { int i = reg( s); bool z = s == "$zero"; return [=]( u64 v) { if ( ! z) R[i] = v; }; };
    if ( m == "nop") return []() {};
    if ( is( m, "st.d fst.d") ) { G g = rd( o[0]), a = rd( o[1]), d = rd( o[2]); return [=]() { store( a() + d(), 8, g() ); }; }
    if ( is( m, "ld.d fld.d") ) { S s = wr( o[0]); G a = rd( o[1]), d = rd( o[2]); return [=]() { s( load( a() + d(), 8) ); }; }
    if ( is( m, "addi.d add.d sub.d and andi or ori xor") ) { G a = rd( o[1]), b = rd( o[2]); S s = wr( o[0]); str k = m; return [=]() { u64 x = a(), y = b(); s( k[0] == 'a' && k[1] == 'd' ? x + y : k == "sub.d" ? x - y : k[0] == 'a' ? x & y : k[0] == 'o' ? x | y : x ^ y); }; }
    if ( is( m, "move li.w li.d") ) { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( a() ); }; }
    if ( m == "bstrins.d") { G a = rd( o[1]); int i = reg( o[0]); int64_t hi = num( o[2]), lo = num( o[3]); return [=]() { u64 mask = ( hi - lo == 63 ? ~u64( 0) : ( u64( 1) << ( hi - lo + 1) ) - 1) << lo; R[i] = ( R[i] & ~mask) | ( ( a() << lo) & mask); }; }
    if ( m == "pcalau12i") { u64 v = static_cast< u64 >( num( o[1]) ) << 12; S s = wr( o[0]); return [=]() { s( ( cur + v) & ~u64( 4095) ); }; }
    if ( m == "pcaddu12i") { u64 v = static_cast< u64 >( num( o[1]) ) << 12; S s = wr( o[0]); return [=]() { s( cur + v); }; }
    if ( m == "pcaddi") { u64 v = static_cast< u64 >( num( o[1]) ) << 2; S s = wr( o[0]); return [=]() { s( cur + v); }; }
    if ( m == "ret") { int a = reg( "$ra"); return [=]() { jump( R[a]); }; }
    if ( m == "jr") { G a = rd( o[0]); return [=]() { jump( a() ); }; }
    if ( m == "jirl") { G a = rd( o[1]); int64_t d = num( o[2]); S s = wr( o[0]); return [=]() { u64 t = a() + d; s( pc); jump( t); }; }
    if ( is( m, "b bl") ) { u64 t = static_cast< u64 >( num( o[0]) ); bool rel = t < 0x80000 || static_cast< int64_t >( t) < 0; bool l = m == "bl"; int ra = reg( "$ra"); (void)base; return [=]() { if ( l) R[ra] = pc; jump( rel ? cur + t : t); }; }
    throw Unsupported{ m};
}
static F mips( const str & m, const std::vector< str > & o, u64 base) {
    auto rd = []( const str & s) -> G { if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = reg( s); bool z = s == "$zero"; return [=]() { return z ? 0 : R[i]; }; };
    auto wr = []( const str & s) -> S { int i = reg( s); bool z = s == "$zero"; return [=]( u64 v) { if ( ! z) R[i] = trunc( v, W); }; };
    if ( is( m, "nop ssnop") ) return []() {};
    if ( is( m, "sw sd sdc1 swc1") ) { str b; int64_t d; if ( ! base_disp( o[1], b, d) ) throw Unsupported{ m}; G g = rd( o[0]), a = rd( b); int n = m == "sw" || m == "swc1" ? 4 : 8; return [=]() { store( trunc( a() + d, W), n, trunc( g(), n) ); }; }
    if ( is( m, "lw ld ldc1") ) { str b; int64_t d; if ( ! base_disp( o[1], b, d) ) throw Unsupported{ m}; int i = reg( o[0]); bool z = o[0] == "$zero"; G a = rd( b); int n = m == "lw" ? 4 : 8; return [=]() { u64 v = load( trunc( a() + d, W), n); if ( n == 4 && W == 8) v = static_cast< u64 >( sx( v, 32) ); if ( ! z) R[i] = v; }; }
    if ( is( m, "addiu daddiu addu daddu subu dsubu and andi or ori xor") ) { if ( o.size() < 3) throw Unsupported{ m}; G a = rd( o[1]), b = rd( o[2]); S s = wr( o[0]); str k = m; bool w = m == "addiu" || m == "addu" || m == "subu"; return [=]() { u64 x = a(), y = b(); u64 v = k.find( "add") != str::npos ? x + y : k.find( "sub") != str::npos ? x - y : k[0] == 'a' ? x & y : k[0] == 'o' ? x | y : x ^ y; s( w && W == 8 ? static_cast< u64 >( sx( v, 32) ) : v); }; }
    if ( is( m, "move li") ) { G a = rd( o[1]); S s = wr( o[0]); return [=]() { s( a() ); }; }
    if ( m == "lui") { u64 v = static_cast< u64 >( sx( static_cast< u64 >( num( o[1]) ) << 16, 32) ); S s = wr( o[0]); return [=]() { s( v); }; }
    if ( is( m, "jr jalr") ) { G a = rd( o.back() ); bool l = m == "jalr"; int ra = reg( l && o.size() > 1 ? o[0] : "$ra"); return [=]() { u64 t = a(); if ( l) R[ra] = cur + 8; jump( t); }; }
    if ( is( m, "b bal j jal") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); bool l = m == "bal" || m == "jal"; int ra = reg( "$ra"); return [=]() { if ( l) R[ra] = cur + 8; jump( t); }; }
    if ( is( m, "beqz bnez") ) { G a = rd( o[0]); u64 t = base + static_cast< u64 >( num( o[1]) ); bool z = m == "beqz"; return [=]() { if ( ( a() == 0) == z) jump( t); }; }
    throw Unsupported{ m};
}
// ---- POWER -----------------------------------------------------------------------------
static F ppc( const str & m, const std::vector< str > & o, u64 base) {
    int lr = reg( "lr"), ctr = reg( "ctr"), cr = reg( "cr"), fs = reg( "fpscr");
    auto g = []( const str & s) { return reg( "r" + s); }; auto f = []( const str & s) { return reg( "f" + s); };
    if ( m == "nop") return []() {};
    if ( is( m, "std stw stfd stdu stwu ld lwz lfd") ) {
        str b; int64_t d; if ( ! base_disp( o[1], b, d) ) throw Unsupported{ m}; bool fp = m == "stfd" || m == "lfd", st = m[0] == 's', up = m.back() == 'u', zb = b == "0"; int v = fp ? f( o[0]) : g( o[0]), bi = g( b), n = fp || m[1] == 'd' || m.substr( 0, 3) == "std" ? 8 : 4; if ( m == "ld") n = 8; if ( m == "stw" || m == "stwu" || m == "lwz") n = 4;
        return [=]() { u64 e = trunc( ( zb ? 0 : R[bi]) + d, W); if ( st) store( e, n, trunc( R[v], n) ); else R[v] = load( e, n); if ( up) R[bi] = e; };
    }
    if ( is( m, "stvx lvx") ) { int v = reg( "v" + o[0]), vh = reg( "v" + o[0] + "h"), a = g( o[1]), b = g( o[2]); bool z = o[1] == "0", st = m[0] == 's'; return [=]() { u64 e = trunc( ( ( z ? 0 : R[a]) + R[b]) & ~u64( 15), W); if ( st) { store( e, 8, R[v]); store( e + 8, 8, R[vh]); } else { R[v] = load( e, 8); R[vh] = load( e + 8, 8); } }; }
    if ( is( m, "mr") ) { int a = g( o[0]), b = g( o[1]); return [=]() { R[a] = R[b]; }; }
    if ( is( m, "or and add subf") ) { int a = g( o[0]), b = g( o[1]), c = g( o[2]); str k = m; return [=]() { R[a] = trunc( k == "or" ? R[b] | R[c] : k == "and" ? R[b] & R[c] : k == "add" ? R[b] + R[c] : R[c] - R[b], W); }; }
    if ( is( m, "li lis") ) { int a = g( o[0]); u64 v = static_cast< u64 >( num( o[1]) ) << ( m == "lis" ? 16 : 0); return [=]() { R[a] = trunc( v, W); }; }
    if ( is( m, "addi addis subi la") ) { int a = g( o[0]); str b; int64_t d; if ( m == "la" && base_disp( o[1], b, d) ) {} else { b = o[1]; d = num( o[2]); } if ( m == "addis") d = d * 65536; if ( m == "subi") d = -d; int bi = g( b); bool z = b == "0"; return [=]() { R[a] = trunc( ( z ? 0 : R[bi]) + d, W); }; }
    if ( m == "rlwinm") { int a = g( o[0]), b = g( o[1]); int64_t sh = num( o[2]), mb = num( o[3]), me = num( o[4]); if ( mb > me) throw Unsupported{ m}; return [=]() { uint32_t v = static_cast< uint32_t >( R[b]); v = sh ? ( v << sh) | ( v >> ( 32 - sh) ) : v; uint32_t mask = ( 0xffffffffu >> mb) & ( 0xffffffffu << ( 31 - me) ); R[a] = v & mask; }; }
    if ( m == "clrrwi") { int a = g( o[0]), b = g( o[1]); int64_t n = num( o[2]); return [=]() { R[a] = R[b] & 0xffffffffu & ~( ( u64( 1) << n) - 1); }; }
    if ( is( m, "rldicr clrrdi") ) { int a = g( o[0]), b = g( o[1]); int64_t sh = m == "rldicr" ? num( o[2]) : 0, me = m == "rldicr" ? num( o[3]) : 63 - num( o[2]); return [=]() { u64 v = R[b]; v = sh ? ( v << sh) | ( v >> ( 64 - sh) ) : v; R[a] = v & ( me == 63 ? ~u64( 0) : ~( ~u64( 0) >> ( me + 1) ) ); }; }
    if ( is( m, "mflr mfctr mfcr") ) { int a = g( o[0]), s = m == "mflr" ? lr : m == "mfctr" ? ctr : cr; return [=]() { R[a] = R[s]; }; }
    if ( is( m, "mtlr mtctr mtcr") ) { int a = g( o[0]), s = m == "mtlr" ? lr : m == "mtctr" ? ctr : cr; bool c = m == "mtcr"; return [=]() { R[s] = c ? trunc( R[a], 4) : R[a]; }; }
    if ( m == "mtcrf") { int a = g( o[1]); u64 k = static_cast< u64 >( num( o[0]) ), mask = 0; for ( int i = 0; i < 8; ++i) if ( k >> ( 7 - i) & 1) mask |= u64( 15) << ( 28 - 4 * i); return [=]() { R[cr] = ( R[cr] & ~mask) | ( R[a] & mask); }; }
    if ( m == "mffs") { int a = f( o[0]); return [=]() { R[a] = R[fs]; }; }
    if ( m == "mtfsf") { if ( num( o[0]) != 255) throw Unsupported{ m}; int a = f( o[1]); return [=]() { R[fs] = R[a] & 0xffffffffu; }; }
    if ( is( m, "cmpdi cmpwi cmpldi cmplwi") ) { int a = g( o.size() > 2 ? o[1] : o[0]); if ( o.size() > 2 && o[0] != "0") throw Unsupported{ m}; int64_t v = num( o.back() ); bool w = m.find( 'w') != str::npos; return [=]() { int64_t x = w ? sx( R[a], 32) : static_cast< int64_t >( R[a]); u64 b = x < v ? 8 : x > v ? 4 : 2; R[cr] = ( R[cr] & 0x0fffffffu) | b << 28; }; }
    if ( is( m, "beq bne bt bf") ) { u64 t = base + static_cast< u64 >( num( o.back() ) ); if ( ( m == "bt" || m == "bf") && o[0] != "2" && o[0] != "eq") throw Unsupported{ m}; bool e = m == "beq" || m == "bt"; return [=]() { if ( ( ( R[cr] >> 29 & 1) != 0) == e) jump( t); }; }
    if ( is( m, "b bl") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); bool l = m == "bl"; return [=]() { if ( l) R[lr] = pc; jump( t); }; }
    if ( is( m, "blr bctr bctrl blrl") ) { int s = m[1] == 'l' ? lr : ctr; bool l = m.back() == 'l'; return [=]() { u64 t = R[s]; if ( l) R[lr] = pc; jump( t & ~u64( 3) ); }; }
    throw Unsupported{ m};
}
// ---- z/Architecture ----------------------------------------------------------------------
static F s390( const str & m, const std::vector< str > & o, u64 base) {
    auto mem = []( const str & s) -> G { str b; int64_t d; if ( ! base_disp( s, b, d) ) throw Unsupported{ s}; auto q = ops( b); int i = reg( q.back() ), x = q.size() > 1 ? reg( q[0]) : -1; bool z = q.back() == "%r0"; return [=]() { return ( z ? 0 : R[i]) + d + ( x >= 0 ? R[x] : 0); }; };
    int cc = reg( "cc");
    if ( is( m, "nop nopr bcr") ) return []() {};
    if ( is( m, "stg std") ) { int a = reg( o[0]); G e = mem( o[1]); return [=]() { store( e(), 8, R[a]); }; }
    if ( is( m, "lg ld ltg") ) { int a = reg( o[0]); G e = mem( o[1]); bool t = m == "ltg"; return [=]() { R[a] = load( e(), 8); if ( t) R[cc] = R[a] == 0 ? 0 : static_cast< int64_t >( R[a]) < 0 ? 1 : 2; }; }
    if ( is( m, "stmg lmg") ) { int64_t a = num( o[0].substr( 2) ), b = num( o[1].substr( 2) ); if ( b < a) throw Unsupported{ m}; std::vector< int > v; for ( int64_t i = a; i <= b; ++i) v.push_back( reg( "%r" + std::to_string( i) ) ); G e = mem( o[2]); bool st = m == "stmg"; return [=]() { u64 p = e(); for ( size_t i = 0; i < v.size(); ++i) if ( st) store( p + 8 * i, 8, R[v[i]]); else R[v[i]] = load( p + 8 * i, 8); }; }
    if ( m == "stfpc") { G e = mem( o[0]); int f = reg( "fpc"); return [=]() { store( e(), 4, R[f]); }; }
    if ( m == "lfpc") { G e = mem( o[0]); int f = reg( "fpc"); return [=]() { R[f] = load( e(), 4); }; }
    if ( is( m, "lgr ltgr") ) { int a = reg( o[0]), b = reg( o[1]); bool t = m == "ltgr"; return [=]() { R[a] = R[b]; if ( t) R[cc] = R[a] == 0 ? 0 : static_cast< int64_t >( R[a]) < 0 ? 1 : 2; }; }
    if ( is( m, "aghi lghi") ) { int a = reg( o[0]); int64_t v = num( o[1]); bool l = m == "lghi"; return [=]() { R[a] = ( l ? 0 : R[a]) + v; }; }
    if ( m == "nill") { int a = reg( o[0]); u64 v = static_cast< u64 >( num( o[1]) ); return [=]() { R[a] &= ~u64( 0xffff) | v; }; }
    if ( m == "mvghi") { G e = mem( o[0]); u64 v = static_cast< u64 >( num( o[1]) ); return [=]() { store( e(), 8, v); }; }
    if ( is( m, "la lay") ) { int a = reg( o[0]); G e = mem( o[1]); return [=]() { R[a] = e(); }; }
    if ( m == "larl") { int a = reg( o[0]); u64 t = base + static_cast< u64 >( num( o[1]) ); return [=]() { R[a] = t; }; }
    if ( m == "br") { int a = reg( o[0]); return [=]() { jump( R[a]); }; }
    if ( m == "basr") { int a = reg( o[0]), b = reg( o[1]); return [=]() { u64 t = R[b]; R[a] = pc; jump( t); }; }
    if ( m == "brasl") { int a = reg( o[0]); u64 t = base + static_cast< u64 >( num( o[1]) ); return [=]() { R[a] = pc; jump( t); }; }
    if ( is( m, "j jg jne je jnz jz jlh jgne jge") ) { u64 t = base + static_cast< u64 >( num( o[0]) ); if ( m == "j" || m == "jg") return [=]() { jump( t); }; bool e = m == "je" || m == "jz" || m == "jge"; return [=]() { if ( ( R[cc] == 0) == e) jump( t); }; }
    throw Unsupported{ m};
}
// ---- SPARC V9 -----------------------------------------------------------------------------
enum { BIAS = 2047 };
static str sname( str s) { if ( s == "%sp") return "%o6"; if ( s == "%fp") return "%i6"; return s; }
static str wn( char c, int i) { return str( "%") + c + char( '0' + i); }
void spill_windows() {
    u64 sp = r( "%i6");
    for ( size_t k = wins.size(); k-- > 0; ) { for ( int j = 0; j < 8; ++j) { store( sp + BIAS + 8 * j, 8, wins[k].l[j]); store( sp + BIAS + 64 + 8 * j, 8, wins[k].i[j]); } sp = wins[k].i[6]; }
    wins.clear();
}
static F sparc( const str & m, const std::vector< str > & o, u64) {
    auto rd = []( const str & s0) -> G { str s = sname( s0); if ( isnum( s) ) { u64 v = static_cast< u64 >( num( s) ); return [=]() { return v; }; } int i = reg( s); bool z = s == "%g0"; return [=]() { return z ? 0 : R[i]; }; };
    auto wr = []( const str & s0) -> S { str s = sname( s0); int i = reg( s); bool z = s == "%g0"; return [=]( u64 v) { if ( ! z) R[i] = v; }; };
    auto mem = [=]( const str & s) -> G { str t = s.substr( 1, s.size() - 2); size_t p = t.find_first_of( "+-", 1); if ( p == str::npos) return rd( t); G a = rd( t.substr( 0, p) ); str q = t.substr( t[p] == '+' ? p + 1 : p); G b = rd( q); return [=]() { return a() + b(); }; };
    if ( m == "nop") return []() {};
    if ( m == "stx") { G g = rd( o[0]), e = mem( o[1]); return [=]() { store( e(), 8, g() ); }; }
    if ( m == "ldx") { S s = wr( o[1]); G e = mem( o[0]); return [=]() { s( load( e(), 8) ); }; }
    if ( m == "mov") { G g = rd( o[0]); S s = wr( o[1]); return [=]() { s( g() ); }; }
    if ( m == "clr") { S s = wr( o[0]); return [=]() { s( 0); }; }
    if ( is( m, "add sub and andn or xor") ) { G a = rd( o[0]), b = rd( o[1]); S s = wr( o[2]); str k = m; return [=]() { u64 x = a(), y = b(); s( k == "add" ? x + y : k == "sub" ? x - y : k == "and" ? x & y : k == "andn" ? x & ~y : k == "or" ? x | y : x ^ y); }; }
    if ( m == "rd") { if ( o[0] != "%pc") throw Unsupported{ m}; S s = wr( o[1]); return [=]() { s( cur); }; }
    if ( m == "flushw") return []() { spill_windows(); };
    if ( m == "save" || m == "restore") {
        bool sv = m == "save"; G a = o.empty() ? G( []() { return u64( 0); }) : rd( o[0]), b = o.empty() ? a : rd( o[1]); str d = o.empty() ? "%g0" : sname( o[2]); int di = reg( d); bool z = d == "%g0";
        for ( char c : { 'l', 'i', 'o'}) for ( int j = 0; j < 8; ++j) reg( wn( c, j) );
        return [=]() {
            u64 v = a() + b(); Win w;
            if ( sv) { for ( int j = 0; j < 8; ++j) { w.l[j] = r( wn( 'l', j) ); w.i[j] = r( wn( 'i', j) ); } wins.push_back( w); for ( int j = 0; j < 8; ++j) { r( wn( 'i', j) ) = r( wn( 'o', j) ); r( wn( 'l', j) ) = 0xD1D1D1D100ull + j; r( wn( 'o', j) ) = 0xD2D2D2D200ull + j; } }
            else {
                if ( wins.empty() ) { u64 sp = r( "%i6"); for ( int j = 0; j < 8; ++j) { w.l[j] = load( sp + BIAS + 8 * j, 8); w.i[j] = load( sp + BIAS + 64 + 8 * j, 8); } }
                else { w = wins.back(); wins.pop_back(); }
                for ( int j = 0; j < 8; ++j) { r( wn( 'o', j) ) = r( wn( 'i', j) ); r( wn( 'l', j) ) = w.l[j]; }
                for ( int j = 0; j < 8; ++j) r( wn( 'i', j) ) = w.i[j];
            }
            if ( ! z) R[di] = v;
        };
    }
    if ( m == "ret") { int i = reg( "%i7"); return [=]() { jump( R[i] + 8); }; }
    if ( m == "retl") { int i = reg( "%o7"); return [=]() { jump( R[i] + 8); }; }
    if ( m == "call") { int q = reg( "%o7"); if ( isnum( o[0]) ) { u64 d = static_cast< u64 >( num( o[0]) ); return [=]() { R[q] = cur; jump( cur + d); }; } G a = rd( o[0]); return [=]() { u64 t = a(); R[q] = cur; jump( t); }; }
    if ( m == "jmp") { G a = rd( o[0]); return [=]() { jump( a() ); }; }
    if ( m == "jmpl") { G a = rd( o[0]); S s = wr( o[1]); return [=]() { u64 t = a(); s( cur); jump( t); }; }
    throw Unsupported{ m};
}

void load_listing( const char * text) {
    std::istringstream in( text); str line;
    while ( std::getline( in, line) ) {
        std::istringstream l( line); str k; l >> k;
        if ( k == "target") {
            l >> target;
            W = is( target.substr( 0, target.find( '_') ), "i386 arm mips32 mips32el ppc32") ? 4 : 8;
            be = is( target, "mips32 mips64 ppc32_linux ppc32_bsd ppc64_v1 s390x sparc64");
            delay = target.substr( 0, 4) == "mips" || target == "sparc64";
        } else if ( k == "sym") { str n, a; l >> n >> a; syms[n] = strtoull( a.c_str(), nullptr, 16); }
        else if ( k == "ins") {
            str a, b, m, rest; l >> a >> b >> m; std::getline( l, rest); while ( ! rest.empty() && rest[0] == ' ') rest.erase( 0, 1);
            Ins i; i.addr = strtoull( a.c_str(), nullptr, 16); u64 base = strtoull( b.c_str(), nullptr, 16); i.text = m + " " + rest; auto o = ops( rest);
            try {
                str t = target.substr( 0, 4);
                i.f = t == "x86_" || t == "i386" ? x86( m, o, base) : target.substr( 0, 5) == "arm64" ? arm64( m, o, base) : t == "arm_" ? arm( m, o, base) : t == "risc" ? riscv( m, o, base) : t == "loon" ? loong( m, o, base)
                    : t == "mips" ? mips( m, o, base) : t == "ppc3" || t == "ppc6" ? ppc( m, o, base) : t == "s390" ? s390( m, o, base) : sparc( m, o, base);
            } catch ( Unsupported & u) { str w = i.text; i.f = [w]() { throw Unsupported{ w}; }; }
            catch ( std::exception &) { str w = i.text; i.f = [w]() { throw Unsupported{ w}; }; }
            code.push_back( i);
        }
    }
    std::stable_sort( code.begin(), code.end(), []( const Ins & a, const Ins & b) { return a.addr < b.addr; });
    for ( size_t i = 0; i < code.size(); ++i) index_of[code[i].addr] = i;
}
void step() {
    auto it = index_of.find( pc); if ( it == index_of.end() ) throw Unsupported{ "no instruction at this address"};
    size_t i = it->second; cur = pc;
    if ( delay) { pc = npc; npc = pc + 4; } else pc = i + 1 < code.size() ? code[i + 1].addr : cur + 4;
    code[i].f();
}
}
