// libc's FD_* macros as calls (assumed contracts: a descriptor set is a set), so that their bit fiddling needs no model
#pragma once
#include <sys/select.h>
extern "C" {
void scv_fd_zero(fd_set*);
void scv_fd_set(int, fd_set*);
void scv_fd_clr(int, fd_set*);
int scv_fd_isset(int, const fd_set*);
}
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) scv_fd_zero(s)
#define FD_SET(d, s) scv_fd_set(d, s)
#define FD_CLR(d, s) scv_fd_clr(d, s)
#define FD_ISSET(d, s) scv_fd_isset(d, s)
