// the kernel takes only a part of the payload: send must not report success
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdio>
#include <string>
#include "protocol.h"
using namespace scalopus;
static int g_fd = -1;
static int g_at = -1, g_n = 0;
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl)
{
  if (fd == g_fd && g_n++ == g_at && n > 1) n /= 2;
  return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
int main()
{
  for (int k = 0; k < 6; k++)
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 2;
    protocol::Msg a;
    a.request_id = 5; a.endpoint = "ep"; a.data.assign(1000, 0x41);
    g_fd = sv[0]; g_at = k; g_n = 0;
    bool ok = protocol::send(sv[0], a);
    shutdown(sv[0], SHUT_WR);
    size_t total = 0; char buf[4096]; ssize_t r;
    while ((r = read(sv[1], buf, sizeof buf)) > 0) total += r;
    if (ok && total != 8 + 2 + 2 + 4 + 1000) { printf("send reported success with %zu bytes on the stream\n", total); return 1; }
    close(sv[0]); close(sv[1]);
  }
  return 0;
}
