// P19: control messages and sockets over a transport that splits, ends and fails as the solver likes.
#include <sx.h>
#include <errno.h>
#include <string.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
#include <string>
#include "common/types/ControlSequence.hpp"
#include "common/socket/OutSocket.hpp"
#include "common/socket/InSocket.hpp"
int verbose;
#ifndef NB
#define NB 4
#endif
static unsigned char wire[70000]; static int sent, taken;
static bool freeWrite, freeRead;   // may this direction split and fail?
static bool writeFailed, readFailed, ended; static int calls, shutAt;
static int nextFd, isOpen[16], bad;
static int ofFd; static size_t atOnce; // at most so many bytes in one call
extern "C" {
ssize_t vf_write(int fd, const void* p, size_t n) {
    sx_assert(fd == ofFd, "written to the descriptor of the connection"); calls++;
    sx_assert(n > 0, "nothing is written at the end");
    sx_assert(!writeFailed, "no write after a failure");
    size_t k = n;
    if (atOnce && k > atOnce) k = atOnce;
    if (freeWrite) {
        k = sx_pick("written", n + 2);
        if (k == n + 1) { writeFailed = true; errno = EPIPE; return -1; }
        if (k == 0) writeFailed = true; // the transport takes nothing any more
    }
    memcpy(wire + sent, p, k); sent += (int)k;
    return (ssize_t)k;
}
ssize_t vf_read(int fd, void* p, size_t n) {
    sx_assert(fd == ofFd, "read from the descriptor of the connection"); calls++;
    sx_assert(!readFailed && !ended, "no read after a failure or the end");
    size_t left = sent - taken, m = n < left ? n : left, k = m;
    if (atOnce && k > atOnce) k = atOnce;
    if (freeRead) {
        k = sx_pick("read", m + 2);
        if (k == m + 1) { readFailed = true; errno = ECONNRESET; return -1; }
    }
    if (k == 0) ended = true;
    memcpy(p, wire + taken, k); taken += (int)k;
    return (ssize_t)k;
}
static int newfd() { int f = nextFd++; isOpen[f] = 1; return f; }
static int fails[6], portGot, boundPort, listened; static unsigned addrGot;
int vf_socket(int d, int t, int p) { sx_assert(d == AF_INET && t == SOCK_STREAM, "a TCP socket"); if (fails[0]) { errno = EMFILE; return -1; } return newfd(); }
int vf_connect(int fd, const struct sockaddr* a, socklen_t n) {
    sx_assert(fd >= 0 && isOpen[fd] && n >= sizeof(struct sockaddr_in), "an open descriptor is connected");
    const struct sockaddr_in* s = (const struct sockaddr_in*)a; sx_assert(s->sin_family == AF_INET, "an internet address");
    portGot = ntohs(s->sin_port); addrGot = s->sin_addr.s_addr;
    if (fails[1]) { errno = ECONNREFUSED; return -1; } return 0;
}
int vf_setsockopt(int fd, int, int, const void*, socklen_t) { sx_assert(fd >= 0 && isOpen[fd], "option of an open descriptor"); if (fails[2]) { errno = EINVAL; return -1; } return 0; }
int vf_bind(int fd, const struct sockaddr* a, socklen_t n) {
    sx_assert(fd >= 0 && isOpen[fd], "an open descriptor is bound");
    boundPort = ntohs(((const struct sockaddr_in*)a)->sin_port); if (fails[3]) { errno = EADDRINUSE; return -1; } return 0;
}
int vf_listen(int fd, int q) { sx_assert(fd >= 0 && isOpen[fd], "an open descriptor listens"); listened++; if (fails[4]) { errno = EADDRINUSE; return -1; } return 0; }
int vf_accept(int fd, struct sockaddr* a, socklen_t* n) {
    sx_assert(fd >= 0 && isOpen[fd] && listened, "accept on the listening socket");
    sx_assert(a == nullptr || *n >= sizeof(struct sockaddr_in), "room for the address");
    if (fails[5]) { errno = ECONNABORTED; return -1; }
    if (a) memset(a, 0, sizeof(struct sockaddr_in));
    return newfd();
}
int vf_close(int fd) {
    if (fd < 0 || fd >= 16 || !isOpen[fd]) { bad++; errno = EBADF; return -1; }
    isOpen[fd] = 0; return 0;
}
static char addr4[4]; static char* addrs[2] = {addr4, nullptr}; static struct hostent host; static bool noHost; static std::string hostAsked;
struct hostent* vf_gethostbyname(const char* n) { hostAsked = n; if (noHost) return nullptr; host.h_addrtype = AF_INET; host.h_length = 4; host.h_addr_list = addrs; return &host; }
int vf_getnameinfo(const struct sockaddr*, socklen_t, char* h, socklen_t hl, char* s, socklen_t sl, int) { h[0] = 0; s[0] = 0; return 0; }
}
static int opened() { int n = 0; for (int i = 0; i < 16; i++) n += isOpen[i]; return n; }
static void message() {
    ofFd = 5;
    freeWrite = sx_pick("splitwrites", 2); freeRead = !freeWrite;
#ifdef BOTH
    freeRead = freeWrite = true;
#endif
    ControlSequence a, b;
    bool set = sx_pick("set", 2);
    DataFormat f = (DataFormat)sx_u32("format");
    if (set) a.setFormat(f);
    ssize_t n = a.send(5);
    sx_assert(a.isParsed() == set && (!set || a.getFormat() == f), "sending does not change the message");
    if (!writeFailed) sx_assert(n == (ssize_t)sizeof(ControlSequence) && sent == (int)sizeof(ControlSequence), "the whole message is sent");
    else sx_assert(n < (ssize_t)sizeof(ControlSequence), "an incomplete send is reported");
    ssize_t m = b.recv(5);
    if (taken == (int)sizeof(ControlSequence)) {
        sx_assert(m == (ssize_t)sizeof(ControlSequence), "a complete message is reported");
        sx_assert(b.isParsed() == set, "received as sent");
        sx_assert(b.getFormat() == (set ? f : DATAFORMAT_DEFAULT), "the format that was sent");
        sx_reach("message");
    } else {
        sx_assert(readFailed || ended, "receiving stops only at the end or a failure");
        sx_assert(m != (ssize_t)sizeof(ControlSequence), "an incomplete message is reported");
        sx_assert(!readFailed || m == -1, "a failure is reported");
        sx_assert(!b.isParsed() && b.getFormat() == DATAFORMAT_DEFAULT, "nothing of an incomplete message is used");
        sx_reach("incomplete message");
    }
    // a second message on the same connection, after an incomplete one, is not expected to work
}
static void sockets() {
    nextFd = 3;
    noHost = sx_pick("nohost", 2);
    for (int i = 0; i < 2; i++) fails[i] = sx_pick("fails", 2);
    for (int i = 0; i < 4; i++) addr4[i] = (char)sx_u8("addr");
    int port = (int)(sx_u32("port") & 65535);
    OutSocket* o = new OutSocket("h", port);
    char x = 0;
    sx_assert(o->write(&x, 1) == -1 && o->read(&x, 1) == -1 && o->getFd() == -1 && !calls, "a closed socket transfers nothing");
    int r = o->enable();
    bool ok = !noHost && !fails[0] && !fails[1];
    sx_assert(r == (ok ? 0 : -1), "a failed connection is reported");
    sx_assert(hostAsked == "h", "the host that was given");
    if (ok) {
        sx_reach("connected");
        sx_assert(portGot == port && !memcmp(&addrGot, addr4, 4), "connected to the address and port");
        ofFd = o->getFd();
        sx_assert(ofFd >= 3 && isOpen[ofFd], "the descriptor of the connection");
        int n = (int)sx_pick("n", NB + 1);
        unsigned char buf[NB + 1], in[NB + 1];
        for (int i = 0; i < n; i++) buf[i] = sx_u8("data");
        if (sx_pick("direction", 2)) {
            freeWrite = true;
            int w = o->write(buf, n);
            sx_assert(w == (writeFailed && sent < n && w == -1 ? -1 : sent), "the number of bytes written");
            sx_assert(writeFailed || sent == n, "everything is written");
            bool same = true; for (int i = 0; i < sent; i++) same = same & (wire[i] == buf[i]);
            sx_assert(same, "exactly the data is written");
            if (w == n && n) sx_reach("written");
        } else {
            int have = (int)sx_pick("have", NB + 1);
            for (int i = 0; i < have; i++) wire[i] = sx_u8("incoming");
            sent = have; freeRead = true; memset(in, 0, sizeof in);
            int w = o->read(in, n);
            sx_assert(!readFailed || w == -1, "a failing read is reported");
            sx_assert(readFailed || w == taken, "the number of bytes read");
            sx_assert(readFailed || ended || taken == n, "reading stops only at the end or a failure");
            bool same = true; for (int i = 0; i < taken; i++) same = same & (wire[i] == in[i]);
            sx_assert(same, "exactly the data is read");
            if (w == n && n) sx_reach("read");
        }
    } else { sx_assert(opened() == 0, "a failed connection leaves nothing open"); sx_assert(o->getFd() == -1, "a failed connection is closed"); sx_reach("not connected"); }
    delete o;
    sx_assert(opened() == 0 && bad == 0, "every descriptor is closed once");
}
static void longer() { // many bytes, in large pieces
    nextFd = 3; OutSocket* o = new OutSocket("h", 80);
    sx_assert(o->enable() == 0, "connected"); ofFd = o->getFd();
    static const int LS[] = {127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 8193, 32768, 65535, 65536, 65537}; static const size_t ONCE[] = {100000, 1000, 4096, 1448};
    int n = LS[sx_pick("size", sizeof LS / sizeof *LS)]; atOnce = ONCE[sx_pick("atonce", 4)];
    static unsigned char buf[70000]; for (int i = 0; i < n; i++) buf[i] = (unsigned char)(i / 251 + i);
    buf[n - 1] = sx_u8("last"); buf[n / 2] = sx_u8("middle");
    int diff = 0;
    if (sx_pick("direction", 2)) {
        sx_assert(o->write(buf, n) == n && sent == n, "everything is written");
        for (int i = 0; i < n; i++) diff |= wire[i] ^ buf[i];
        sx_assert(diff == 0, "exactly the data is written"); sx_reach("much written");
    } else {
        static unsigned char in[70000]; int less = sx_pick("less", 2); memcpy(wire, buf, n); sent = n - less;
        sx_assert(o->read(in, n) == n - less && taken == n - less, "everything is read");
        for (int i = 0; i < n - less; i++) diff |= in[i] ^ buf[i];
        sx_assert(diff == 0 && in[n] == 0 && (!less || in[n - 1] == 0), "exactly the data is read"); sx_reach("much read");
    }
    delete o; sx_assert(opened() == 0 && bad == 0, "every descriptor is closed once");
}
static void server() {
    nextFd = 3;
    int which = (int)sx_pick("fails", 7); // one call fails, or none
    if (which < 6 && which != 1) fails[which] = 1;
    int port = (int)(sx_u32("port") & 65535);
    InSocket* s = new InSocket(port, 2);
    if (sx_pick("early", 2)) sx_assert(s->accept() == nullptr, "a socket that is not started accepts nothing");
    int r = s->enable();
    bool ok = !(fails[0] || fails[2] || fails[3] || fails[4]);
    sx_assert(r == (ok ? 0 : -1), "a failing start is reported");
    if (ok) {
        sx_assert(boundPort == port && listened == 1, "listening on the port");
        if (sx_pick("again", 2)) sx_assert(s->enable() == 0 && opened() == 1 && listened == 1, "enabling again changes nothing");
        OutSocket* c = s->accept();
        sx_assert((c == nullptr) == !!fails[5], "a failing accept is reported");
        if (c) {
            sx_assert(opened() == 2, "the connection is open");
            ofFd = c->getFd(); char x = (char)sx_u8("data");
            sx_assert(isOpen[ofFd] && ofFd != 3, "the connection has its own descriptor");
            sx_assert(c->write(&x, 1) == 1 && wire[0] == (unsigned char)x, "the connection transfers data");
            delete c; sx_assert(opened() == 1, "the connection is closed, the server is not"); sx_reach("accepted");
        }
        sx_reach("listening");
    } else sx_assert(opened() == 0, "a failed start leaves nothing open");
    if (!ok && sx_pick("retry", 2)) { for (int& f : fails) f = 0; sx_assert(s->enable() == 0 && opened() == 1, "can be started later"); sx_reach("started later"); }
    delete s;
    sx_assert(opened() == 0 && bad == 0, "every descriptor is closed once");
}
extern "C" void sx_main(void) {
#ifdef LONGER
    longer();
#elif defined(SOCKETS)
    if (sx_pick("server", 2)) server(); else sockets();
#else
    message();
#endif
}
