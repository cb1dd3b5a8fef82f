/* pretend that there's no posix_memalign */
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
