// two messages back to back: the second must start where the first one ended
#include <sys/socket.h>
#include <unistd.h>
#include <cstdio>
#include <thread>
#include "protocol.h"
using namespace scalopus;
int main()
{
  for (size_t d : { 4096ul, 8192ul, 9000ul, 12288ul, 20000ul })
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 2;
    protocol::Msg a, b;
    a.request_id = 5; a.endpoint = "ep"; a.data.assign(d, 0x41);
    b.request_id = 6; b.endpoint = "other"; b.data.assign(3000, 0x42);
    std::thread t([&] { protocol::send(sv[0], a); protocol::send(sv[0], b); shutdown(sv[0], SHUT_WR); });
    usleep(100000);
    protocol::Msg x, y;
    bool ok1 = protocol::receive(sv[1], x), ok2 = protocol::receive(sv[1], y);
    t.join();
    if (!ok1 || x.data != a.data || x.endpoint != a.endpoint) { printf("first message damaged (%zu)\n", d); return 1; }
    if (!ok2 || y.data != b.data || y.endpoint != b.endpoint || y.request_id != 6) { printf("second message damaged (%zu)\n", d); return 1; }
    close(sv[0]); close(sv[1]);
  }
  return 0;
}
