// Forced include: declarations that newer versions of installed libraries have.
#pragma once
#include <liburing.h>
#ifdef __cplusplus
#include <algorithm>
#endif
#if !defined(IO_URING_VERSION_MAJOR) || (IO_URING_VERSION_MAJOR == 2 && IO_URING_VERSION_MINOR < 6)
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len)
{
    sqe->opcode = 55; /* IORING_OP_FTRUNCATE */
    sqe->fd = fd;
    sqe->off = (unsigned long long)len;
}
#endif
