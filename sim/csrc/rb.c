/* One variant of randombytes.c: all headers first, then the feature macros the variant lacks. */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/param.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#ifdef RB_NO_GLIBC
# undef __GLIBC__
#endif
#ifdef RB_NO_SYSCALL
# undef SYS_getrandom
#endif
#undef _GNU_SOURCE
#include RB_FILE
