/* what the preprocessor sees of bionic: no __GLIBC__, M_PURGE, and struct mallinfo with size_t fields */
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <unistd.h>
#ifndef KEEP_GLIBC
#undef __GLIBC__
#endif
#define M_PURGE (-101)
#define mallinfo mallinfo2
