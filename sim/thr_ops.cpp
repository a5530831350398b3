#include "thr.hpp"
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/fixedsize_stack.hpp>
#if defined(THR_CALLCC)
# include <boost/context/continuation.hpp>
#else
# include <boost/context/fiber.hpp>
#endif
#include <new>
#include <utility>
namespace ctx = boost::context;
typedef ctx::pooled_fixedsize_stack P;
#if defined(THR_CALLCC)
typedef ctx::continuation F;
template< typename A, typename Fn > static F mk( A && a, Fn && fn) { return ctx::callcc( std::allocator_arg, std::forward< A >( a), std::forward< Fn >( fn) ); }
#else
typedef ctx::fiber F;
template< typename A, typename Fn > static F mk( A && a, Fn && fn) { return ctx::fiber( std::allocator_arg, std::forward< A >( a), std::forward< Fn >( fn) ); }
#endif
static P & p( void * x) { return *static_cast< P * >( x); }
static P const& p( void const* x) { return *static_cast< P const* >( x); }
static F & f( void * x) { return *static_cast< F * >( x); }
namespace ops {
size_t pool_size() { return sizeof( P); }
size_t fiber_size() { return sizeof( F); }
void pool_make( void * d, size_t sz, size_t next, size_t max) { new ( d) P( sz, next, max); }
void pool_copy( void * d, void const* s) { new ( d) P( p( s) ); }
void pool_move( void * d, void * s) { new ( d) P( std::move( p( s) ) ); }
void pool_assign( void * d, void const* s) { p( d) = p( s); }
void pool_massign( void * d, void * s) { p( d) = std::move( p( s) ); }
void pool_swap( void * a, void * b) { std::swap( p( a), p( b) ); }
void pool_drop( void * x) { p( x).~P(); }
St pool_alloc( void * x) { ctx::stack_context c = p( x).allocate(); St s = { static_cast< char * >( c.sp), c.size }; return s; }
void pool_free( void * x, St s) { ctx::stack_context c; c.sp = s.sp; c.size = s.size; p( x).deallocate( c); }
void fill( St s, int v) { for ( size_t i = 8; i < s.size; i += s.size / 6) s.sp[-static_cast< ptrdiff_t >( i)] = static_cast< char >( v); }
struct Guard { int id; ~Guard() { thr_fiber_gone( id); } };
static int work( int n) { volatile int a[40]; a[n % 40] = n; return n > 2 ? work( n / 2) + a[n % 40] : n; }
struct Body {
    int id;
    F operator()( F && c) {
        { Guard g = { id };
        for ( int i = 0; ! thr_fiber_step( id, i); ++i) { work( i + 5); c = std::move( c).resume(); } }
        return std::move( c);
    }
};
struct BodyCap { P cap; Body b; F operator()( F && c) { P mine( cap); return b( std::move( c) ); } };
void fiber_make( void * d, void const* pool, void const* capture, size_t size, int id) {
    Body b = { id };
    if ( ! pool) new ( d) F( mk( ctx::fixedsize_stack( size), b) );
    else if ( ! capture) new ( d) F( mk( p( const_cast< void * >( pool) ), b) );
    else { BodyCap c = { p( capture), b }; new ( d) F( mk( P( p( pool) ), std::move( c) ) ); }
}
void fiber_make_cap( void * d, void * pool, size_t size, int id) {      // own stack, but the function owns a copy of the pool
    Body b = { id }; BodyCap c = { std::move( p( pool) ), b }; new ( d) F( mk( ctx::fixedsize_stack( size), std::move( c) ) );
}
void fiber_resume( void * x) { f( x) = std::move( f( x) ).resume(); }
void fiber_with( void * x, int id) { f( x) = std::move( f( x) ).resume_with( [id]( F && c) { thr_fiber_step( id, -1); return std::move( c); }); }
void fiber_drop( void * x) { f( x).~F(); }
void fiber_move( void * d, void * s) { new ( d) F( std::move( f( s) ) ); f( s).~F(); }
bool fiber_alive( void const* x) { return static_cast< bool >( *static_cast< F const* >( x) ); }
uint64_t trait( int w) {
    switch ( w) {
    case 0: return ctx::stack_traits::page_size();
    case 1: return ctx::stack_traits::is_unbounded();
    case 2: return ctx::stack_traits::is_unbounded() ? ~0ull : ctx::stack_traits::maximum_size();
    case 3: return ctx::stack_traits::default_size();
    default: return ctx::stack_traits::minimum_size();
    }
}
}
