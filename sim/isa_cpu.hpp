// Stand-in processors for the switch primitives that cannot run on this machine: executes the disassembler's listing of their machine code.
// Only the instructions such routines are made of are known; a run that meets another one is given up without a verdict.
#ifndef SIM_ISA_CPU_HPP
#define SIM_ISA_CPU_HPP
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace isa {
typedef uint64_t u64; typedef std::string str;

struct Unsupported { str what; };

// ---- machine state -------------------------------------------------------------
extern std::vector< u64 > R;                     // every register, by index
extern std::map< str, int > names;
extern u64 pc, npc; extern int W; extern bool be;
extern u64 cur;                                  // address of the executing instruction
u64 load( u64 a, int n); void store( u64 a, int n, u64 v);     // provided by the world; checked
u64 shadow( u64 a, bool write, u64 v);             // shadow stack memory, provided by the world; checked
u64 trap_register( const str & what);            // thread pointers and the like, provided by the world

inline int reg( const str & n) { auto it = names.find( n); if ( it != names.end() ) return it->second; int i = static_cast< int >( R.size() ); R.push_back( 0); names[n] = i; return i; }
inline u64 & r( const str & n) { return R[reg( n)]; }
inline u64 trunc( u64 v, int n) { return n >= 8 ? v : v & ( ( u64( 1) << ( 8 * n) ) - 1); }

struct Win { u64 l[8], i[8]; };
extern std::vector< Win > wins;                  // sparc: register windows still in the processor
void spill_windows();

struct Ins { u64 addr; std::function< void() > f; str text; };
extern std::vector< Ins > code; extern std::map< u64, size_t > index_of; extern std::map< str, u64 > syms; extern str target;
extern bool delay;                               // branches have a delay slot
void load_listing( const char * text);
void step();                                     // executes one instruction
}
#endif
