/* Stand-in for the Windows-only <direct.h> that dbgcv.c includes, so that the
 * assembler can be built as a native Linux program for the harness. */
#ifndef VERIF_DIRECT_H
#define VERIF_DIRECT_H
#include <limits.h>
#include <unistd.h>
#define _getcwd getcwd
#ifndef _MAX_PATH
#define _MAX_PATH 260
#endif
extern char *_pgmptr;
#endif
