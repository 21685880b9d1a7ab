/* limits of the build that is shipped (MinGW): the C library's FILENAME_MAX is 260 there, not 4096 */
#include <stdio.h>
#undef FILENAME_MAX
#define FILENAME_MAX 260
