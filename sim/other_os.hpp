// Selects the branches of the ucontext implementation that are written for macOS and FreeBSD.
#include <boost/predef/os.h>
#undef BOOST_OS_MACOS
#define BOOST_OS_MACOS BOOST_VERSION_NUMBER_AVAILABLE
#undef BOOST_OS_BSD_FREE
#define BOOST_OS_BSD_FREE BOOST_VERSION_NUMBER_AVAILABLE
