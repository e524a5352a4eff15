#define HAVE_ALIGNED_ALLOC 1
#define HAVE_POSIX_MEMALIGN 1
