// a read error in the middle of a message must be reported
#include <sys/socket.h>
#include <sys/syscall.h>
#include <errno.h>
#include <unistd.h>
#include <cstdio>
#include "protocol.h"
using namespace scalopus;
static int g_fd = -1, g_at = -1, g_n = 0;
extern "C" ssize_t read(int fd, void* b, size_t n)
{
  if (fd == g_fd && g_n++ == g_at) { errno = ECONNRESET; return -1; }
  return syscall(SYS_read, fd, b, n);
}
int main()
{
  for (int k = 0; k < 12; k++)
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 2;
    protocol::Msg a, x;
    a.request_id = 5; a.endpoint = "ep"; a.data.assign(9000, 0x41);
    if (!protocol::send(sv[0], a)) return 2;
    g_fd = sv[1]; g_at = k; g_n = 0;
    bool ok = protocol::receive(sv[1], x);
    bool injected = g_n > k;
    g_fd = -1;
    if (ok == injected) { printf("read error at call %d, receive returned %d (payload %zu)\n", k, ok, x.data.size()); return 1; }
    close(sv[0]); close(sv[1]);
  }
  return 0;
}
