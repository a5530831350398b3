#ifndef SIM_VG_HPP
#define SIM_VG_HPP
#include <cstdint>
#include <sys/types.h>
// checks of the stacks registered with Valgrind (builds with BOOST_USE_VALGRIND)
namespace vg {
#if defined(BOOST_USE_VALGRIND) || defined(VG_IMPL)
void handed_out( uintptr_t base, uintptr_t usable, uintptr_t sp, const char *);
void given_back( uintptr_t base, uintptr_t sp, const char *);
int count();
#else
inline void handed_out( uintptr_t, uintptr_t, uintptr_t, const char *) {}
inline void given_back( uintptr_t, uintptr_t, const char *) {}
inline int count() { return 0; }
#endif
}
#endif
