#include "core.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unordered_set>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>

namespace sim {

enum { MAXT = 60000, MAXB = 8000, MAXCOV = 256, MSG = 1500 };

struct Cov { char name[40]; uint64_t n; int fault; };

struct Shared {
    volatile int status;             // 0 running 1 ok 2 violation 3 harness error
    char cls[64];
    char msg[MSG];
    uint64_t hash, shash, steps, switches, events;
    uint32_t ntrace, nblock;
    uint32_t trace[MAXT];
    uint32_t blockpos[MAXB];
    uint32_t ncov;
    Cov cov[MAXCOV];
    uint64_t states[512]; uint32_t nstates;
    char last[200];
};
static Shared * S;
bool verbose = false;

// ---- rng -------------------------------------------------------------------
static uint64_t rs[4];
static uint64_t splitmix( uint64_t & x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t rotl( uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnext() {
    uint64_t r = rotl( rs[1] * 5, 7) * 9, t = rs[1] << 17;
    rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl( rs[3], 45);
    return r;
}
static uint64_t fnv( uint64_t h, uint64_t v) {
    for ( int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 0xff; h *= 0x100000001b3ull; }
    return h;
}

// ---- replay ------------------------------------------------------------------
static bool replaying = false;
static std::vector< std::vector< uint32_t > > * rblocks;
static size_t rb = 0, rp = 0;

uint32_t choose( uint32_t n) {
    if ( n <= 1) return 0;
    uint32_t v;
    if ( replaying) {
        v = 0;
        if ( rb < rblocks->size() && rp < (*rblocks)[rb].size() ) v = (*rblocks)[rb][rp++];
        v %= n;
    } else
        v = static_cast< uint32_t >( (static_cast< unsigned __int128 >( rnext() ) * n) >> 64);
    if ( S->ntrace >= MAXT) { fail( "harness-overflow", "trace overflow"); }
    S->trace[S->ntrace++] = v;
    return v;
}
void block() {
    if ( S->nblock < MAXB) S->blockpos[S->nblock++] = S->ntrace;
    if ( replaying) { if ( rb < rblocks->size() ) ++rb; rp = 0; }
}
static void out_die() {
    _exit( 0);
}
void fail( const char * cls, const char * fmt, ...) {
    if ( S->status == 0) {
        va_list ap; va_start( ap, fmt); vsnprintf( S->msg, MSG, fmt, ap); va_end( ap);
        strncpy( S->cls, cls, sizeof( S->cls) - 1);
        S->status = ! strncmp( cls, "harness", 7) ? 3 : 2;
        if ( verbose) { fprintf( stdout, "VIOLATION[%s] %s\n", S->cls, S->msg); fflush( stdout); }
    }
    out_die(); __builtin_unreachable();
}
void finish_ok() { if ( S->status == 0) S->status = 1; if ( verbose) fflush( stdout); out_die(); __builtin_unreachable(); }
void ev( uint32_t code, uint64_t a, uint64_t b, uint64_t c) {
    S->hash = fnv( fnv( fnv( fnv( S->hash, code), a), b), c); ++S->events;
    if ( verbose) fprintf( stdout, "  ev %u %llu %llu %llu\n", code, (unsigned long long) a, (unsigned long long) b, (unsigned long long) c);
}
void sched( uint32_t from, uint32_t to, uint32_t kind) {
    S->shash = fnv( S->shash, (uint64_t( from) << 40) | (uint64_t( to) << 16) | kind); ++S->switches;
}
void state( uint64_t a) { if ( S->nstates < 512) S->states[S->nstates++] = a; }
void step() { ++S->steps; }
void note( const char * fmt, ...) {
    va_list ap; va_start( ap, fmt);
    if ( verbose) { vprintf( fmt, ap); putchar( '\n'); fflush( stdout); }
    else vsnprintf( S->last, sizeof( S->last), fmt, ap);
    va_end( ap);
}
static void count( const char * name, int fault, uint64_t n) {
    for ( uint32_t i = 0; i < S->ncov; ++i)
        if ( S->cov[i].fault == fault && ! strcmp( S->cov[i].name, name) ) { S->cov[i].n += n; return; }
    if ( S->ncov < MAXCOV) {
        Cov & c = S->cov[S->ncov++];
        strncpy( c.name, name, sizeof( c.name) - 1); c.name[sizeof( c.name) - 1] = 0; c.n = n; c.fault = fault;
    }
}
void cov( const char * name, uint64_t n) { count( name, 0, n); }
void fault_fired( const char * name, uint64_t n) { count( name, 1, n); }

// ---- knobs -------------------------------------------------------------------
struct Knob { char name[32]; long v; };
static Knob knobs[128]; static int nknobs;
long knob( const char * name, long def) {
    for ( int i = 0; i < nknobs; ++i) if ( ! strcmp( knobs[i].name, name) ) return knobs[i].v;
    return def;
}
static void parse_knobs( const char * s) {
    while ( *s) {
        Knob & k = knobs[nknobs++]; int i = 0;
        while ( *s && *s != '=') { if ( i < 31) k.name[i++] = *s; ++s; }
        k.name[i] = 0; if ( *s == '=') ++s;
        k.v = strtol( s, const_cast< char ** >( & s), 10);
        if ( *s == ',') ++s;
    }
}

// ---- unexpected termination -----------------------------------------------------
static void on_terminate() {
    char what[200] = "no current exception";
    if ( std::exception_ptr p = std::current_exception() ) {
        try { std::rethrow_exception( p); }
        catch ( std::exception const& e) { snprintf( what, sizeof( what), "%s", e.what() ); }
        catch ( ...) { snprintf( what, sizeof( what), "exception of another type"); }
    }
    fail( "terminate", "std::terminate called unexpectedly (%s)", what);
}

// ---- one run -------------------------------------------------------------------
static void run_child() {
    struct itimerval tv; memset( & tv, 0, sizeof( tv) ); tv.it_value.tv_sec = getenv( "SIM_CPU") ? atoi( getenv( "SIM_CPU") ) : 20;
    setitimer( ITIMER_PROF, & tv, nullptr);          // CPU time: a run that spins forever is killed by SIGPROF
    std::set_terminate( on_terminate);
    sim_world();
    sim_final_checks();
    finish_ok();
}
struct Outcome { int status; std::string cls, msg; };
static Outcome run_one( uint64_t seed) {
    size_t keep = offsetof( Shared, trace);
    memset( static_cast< void * >( S), 0, keep);
    S->ncov = 0; S->nstates = 0; S->last[0] = 0;
    S->hash = S->shash = 0xcbf29ce484222325ull;
    uint64_t x = seed * 0x2545F4914F6CDD1Dull + 0x1234567; for ( auto & r : rs) r = splitmix( x);
    rb = 0; rp = 0;
    fflush( stdout);
    pid_t p = fork();
    if ( p < 0) { fprintf( stderr, "fork: %s\n", strerror( errno) ); exit( 3); }
    if ( p == 0) { prctl( PR_SET_PDEATHSIG, SIGKILL); run_child(); }
    int st = 0;
    int pfd = static_cast< int >( syscall( SYS_pidfd_open, p, 0) );
    bool killed = false;
    if ( pfd >= 0) {
        struct pollfd q = { pfd, POLLIN, 0 };
        int r; long left = getenv( "SIM_WALL") ? atoi( getenv( "SIM_WALL") ) * 1000 : 60000;
        while ( (r = poll( & q, 1, static_cast< int >( left) ) ) < 0 && errno == EINTR);
        if ( r == 0) { kill( p, SIGKILL); killed = true; }
        close( pfd);
    }
    while ( waitpid( p, & st, 0) < 0 && errno == EINTR);
    Outcome o; o.status = S->status;
    if ( killed) { o.status = 2; o.cls = "blocked"; o.msg = "run made no progress (all threads blocked)"; }
    else if ( WIFSIGNALED( st) ) {
        if ( S->status == 2) { o.cls = S->cls; o.msg = S->msg; }
        else {
            o.status = 2;
            o.cls = WTERMSIG( st) == SIGPROF ? "hang" : std::string( "crash-") + strsignal( WTERMSIG( st) );
            o.msg = std::string( "killed by ") + strsignal( WTERMSIG( st) );
        }
    } else if ( S->status == 0) { o.status = 2; o.cls = "silent-exit"; o.msg = "process exited (code " + std::to_string( WEXITSTATUS( st) ) + ") before the run ended"; }
    else { o.cls = S->cls; o.msg = S->msg; }
    return o;
}
static std::string esc( std::string const& s) {
    std::string r;
    for ( unsigned char c : s) {
        if ( c == '"' || c == '\\') { r += '\\'; r += static_cast< char >( c); }
        else if ( c < 32 || c > 126) { char b[8]; snprintf( b, 8, "\\u%04x", c); r += b; }
        else r += static_cast< char >( c);
    }
    return r;
}
static std::string blocks_json() {
    std::string s = "[";
    uint32_t pos = 0, b = 0;
    for (;;) {
        uint32_t end = b < S->nblock ? S->blockpos[b] : S->ntrace;
        s += s.size() > 1 ? ",[" : "[";
        for ( bool first = true; pos < end; ++pos) { if ( ! first) s += ','; first = false; s += std::to_string( S->trace[pos]); }
        s += ']';
        if ( b++ >= S->nblock) break;
    }
    return s + "]";
}
}

using namespace sim;

static double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, & t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// usage: BIN run KNOBS SEED0 STRIDE COUNT TIME_LIMIT [hashes]
//        BIN replay KNOBS FILE [verbose]       FILE: one line of integers per block
//        BIN one KNOBS SEED [verbose]
int main( int argc, char ** argv) {
    if ( ! getenv( "SIM_REEXEC") ) {
        int p = personality( 0xffffffff);
        if ( p != -1 && ! (p & ADDR_NO_RANDOMIZE) && personality( p | ADDR_NO_RANDOMIZE) != -1) {
            setenv( "SIM_REEXEC", "1", 1); execv( "/proc/self/exe", argv);
        }
    }
    if ( argc < 4) return 3;
    struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, & rl);
    std::string mode = argv[1];
    parse_knobs( argv[2]);
    std::vector< std::vector< uint32_t > > blocks;
    if ( mode == "replay") {
        std::ifstream f( argv[3]); std::string line;
        if ( ! f) { fprintf( stderr, "cannot read %s\n", argv[3]); return 3; }
        while ( std::getline( f, line) ) {
            std::istringstream is( line); std::vector< uint32_t > b; uint32_t v;
            while ( is >> v) b.push_back( v);
            blocks.push_back( b);
        }
        rblocks = & blocks; replaying = true;
    }
    if ( geteuid() == 0) {             // code under test runs without privileges
        if ( setgroups( 0, nullptr) || setresgid( 65534, 65534, 65534) || setresuid( 65534, 65534, 65534) )
            fprintf( stderr, "note: could not drop privileges\n");
    }
    S = static_cast< Shared * >( mmap( reinterpret_cast< void * >( 0x600000000000ull), sizeof( Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) );
    if ( S == MAP_FAILED) return 3;
    sim_zygote_init();

    if ( mode == "replay" || mode == "one") {
        verbose = argc > 4;
        Outcome o = run_one( mode == "one" ? strtoull( argv[3], nullptr, 10) : 0);
        printf( "{\"status\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"last\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"ntrace\":%u,\"blocks\":%s}\n",
                o.status, esc( o.cls).c_str(), esc( o.msg).c_str(), esc( S->last).c_str(), (unsigned long long) S->hash, (unsigned long long) S->steps, S->ntrace, blocks_json().c_str() );
        return 0;
    }
    uint64_t seed0 = strtoull( argv[3], nullptr, 10), stride = strtoull( argv[4], nullptr, 10), cnt = strtoull( argv[5], nullptr, 10);
    double limit = atof( argv[6]); bool hashes = argc > 7;
    double t0 = now();
    uint64_t runs = 0, steps = 0, switches = 0, events = 0, nontrivial = 0; 
    std::unordered_set< uint64_t > sh, hs, states; std::map< std::string, uint64_t > cv, fl;
    std::string viol, hl, sample;
    for ( uint64_t i = 0; i < cnt; ++i) {
        if ( limit > 0 && now() - t0 > limit) break;
        uint64_t seed = seed0 + i * stride;
        Outcome o = run_one( seed);
        ++runs; steps += S->steps; switches += S->switches; events += S->events;
        if ( S->switches > 0 || S->events > 1) ++nontrivial;
        sh.insert( S->shash); hs.insert( S->hash);
        for ( uint32_t k = 0; k < S->nstates; ++k) states.insert( S->states[k]);
        for ( uint32_t k = 0; k < S->ncov; ++k) ( S->cov[k].fault ? fl : cv)[S->cov[k].name] += S->cov[k].n;
        if ( hashes) { char b[64]; snprintf( b, sizeof( b), "%s\"%llu:%016llx\"", hl.empty() ? "" : ",", (unsigned long long) seed, (unsigned long long) S->hash); hl += b; }
        if ( sample.empty() && o.status == 1 && S->switches > 3) {
            char b[200]; snprintf( b, sizeof( b), "{\"seed\":%llu,\"steps\":%llu,\"switches\":%llu,\"history_hash\":\"%016llx\",\"choices\":%u}",
                (unsigned long long) seed, (unsigned long long) S->steps, (unsigned long long) S->switches, (unsigned long long) S->hash, S->ntrace);
            sample = b;
        }
        if ( o.status != 1) {
            char b[400];
            snprintf( b, sizeof( b), "{\"seed\":%llu,\"status\":%d,\"hash\":\"%016llx\",\"steps\":%llu,", (unsigned long long) seed, o.status, (unsigned long long) S->hash, (unsigned long long) S->steps);
            viol = std::string( b) + "\"cls\":\"" + esc( o.cls) + "\",\"msg\":\"" + esc( o.msg) + "\",\"last\":\"" + esc( S->last) + "\",\"blocks\":" + blocks_json() + "}";
            break;
        }
    }
    auto dump = []( std::map< std::string, uint64_t > const& m) {
        std::string s = "{"; for ( auto & p : m) { if ( s.size() > 1) s += ','; s += "\"" + esc( p.first) + "\":" + std::to_string( p.second); } return s + "}"; };
    printf( "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"events\":%llu,\"wall\":%.3f,\"cov\":%s,\"faults\":%s,\"violation\":%s,\"sample\":%s,",
            (unsigned long long) runs, (unsigned long long) nontrivial, (unsigned long long) steps, (unsigned long long) switches, (unsigned long long) events, now() - t0,
            dump( cv).c_str(), dump( fl).c_str(), viol.empty() ? "null" : viol.c_str(), sample.empty() ? "null" : sample.c_str() );
    auto dumpset = [&]( std::unordered_set< uint64_t > const& s) { std::string r = "["; size_t k = 0;
        for ( auto v : s) { if ( k++) r += ','; char b[24]; snprintf( b, 24, "\"%llx\"", (unsigned long long) v); r += b; } return r + "]"; };
    printf( "\"schedules\":%s,\"histories\":%zu,\"states\":%s,\"hashes\":[%s]}\n", dumpset( sh).c_str(), hs.size(), dumpset( states).c_str(), hl.c_str() );
    return 0;
}
