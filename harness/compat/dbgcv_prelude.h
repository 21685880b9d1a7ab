/* same role as /opt/vp/compat/dbgcv_prelude.h: see BUILD.json's notes */
#include <inttype.h>
#define uint_8 char
