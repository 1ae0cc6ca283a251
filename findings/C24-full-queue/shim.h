#pragma once
#include <sys/syscall.h>
#include <liburing.h>
static inline void kio_shim_ftruncate(struct io_uring_sqe *sqe, int fd, long len) { io_uring_prep_rw(55, sqe, fd, 0, 0, len); }
#define io_uring_prep_ftruncate kio_shim_ftruncate
