// Stand-in for Valgrind's client requests: what a run under Valgrind would be told is recorded by the simulator.
#ifndef SIM_VALGRIND_H
#define SIM_VALGRIND_H
#ifdef __cplusplus
extern "C" {
#endif
unsigned sim_vg_register( const void *, const void *);
void sim_vg_deregister( unsigned);
void sim_vg_change( unsigned, const void *, const void *);
#ifdef __cplusplus
}
#endif
#define RUNNING_ON_VALGRIND 1
#define VALGRIND_STACK_REGISTER( a, b) sim_vg_register( ( const void *)( a), ( const void *)( b) )
#define VALGRIND_STACK_DEREGISTER( id) sim_vg_deregister( id)
#define VALGRIND_STACK_CHANGE( id, a, b) sim_vg_change( id, ( const void *)( a), ( const void *)( b) )
#endif
