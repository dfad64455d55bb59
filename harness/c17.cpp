// C17: messages between the debugger and the VM, over sockets and over in-process queues.
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include "dbgfuzz.h"
#include "common/TCP.h"

// ---- injected short reads and writes: the kernel may transfer any part of what was asked for
namespace inject {
constexpr int kMax = 4096;
struct Plan {
    std::vector<size_t> caps;  // cyclic; 0 = no limit
    std::atomic<size_t> at{0};
};
std::atomic<Plan*> reads[kMax], writes[kMax];
std::vector<int>* opened = nullptr;  // sockets made by the code under test
std::mutex opened_m;
size_t cap(std::atomic<Plan*>* t, int fd, size_t n) {
    if (fd < 0 || fd >= kMax || n == 0) return n;
    Plan* p = t[fd].load();
    if (!p || p->caps.empty()) return n;
    size_t k = p->at++;
    if (k > 10000) return n;  // large messages are not carried byte by byte to their end
    size_t c = p->caps[k % p->caps.size()];
    return c == 0 ? n : std::min(n, c);
}
void note(int fd) {
    int one = 1;  // (the sessions of thousands of cases cannot wait for delayed acknowledgements)
    if (fd >= 0) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    std::lock_guard l(opened_m);
    if (opened && fd >= 0) opened->push_back(fd);
}
}  // namespace inject

#ifndef __SANITIZE_THREAD__
extern "C" {
ssize_t read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, inject::cap(inject::reads, fd, n)); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    return syscall(SYS_recvfrom, fd, b, (fl & MSG_WAITALL) ? n : inject::cap(inject::reads, fd, n), fl, a, l);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, inject::cap(inject::writes, fd, n)); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
    return syscall(SYS_sendto, fd, b, inject::cap(inject::writes, fd, n), fl, a, l);
}
ssize_t send(int fd, const void* b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
int socket(int d, int t, int p) {
    int fd = (int)syscall(SYS_socket, d, t, p);
    inject::note(fd);
    return fd;
}
int accept(int s, struct sockaddr* a, socklen_t* l) {
    int fd = (int)syscall(SYS_accept, s, a, l);
    inject::note(fd);
    return fd;
}
}
#endif

namespace {
using Msgs = std::vector<std::string>;

struct Fd {
    int fd = -1;
    Fd() = default;
    explicit Fd(int f) : fd(f) {}
    Fd(Fd&& o) : fd(o.fd) { o.fd = -1; }
    Fd& operator=(Fd&& o) {
        reset();
        std::swap(fd, o.fd);
        return *this;
    }
    void reset() {
        if (fd >= 0) {
            inject::reads[fd] = nullptr;
            inject::writes[fd] = nullptr;
            close(fd);
        }
        fd = -1;
    }
    ~Fd() { reset(); }
};

std::pair<Fd, Fd> sockets(bool tcp_like, int buf) {
    int s[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) {
        perror("socketpair");
        abort();
    }
    for (int f : s) {
        if (f >= inject::kMax) abort();
        if (buf) {
            setsockopt(f, SOL_SOCKET, SO_SNDBUF, &buf, sizeof buf);
            setsockopt(f, SOL_SOCKET, SO_RCVBUF, &buf, sizeof buf);
        }
    }
    return {Fd(s[0]), Fd(s[1])};
}

void raw_write(int fd, const char* b, size_t n) {
    while (n) {
        ssize_t r = syscall(SYS_sendto, fd, b, n, MSG_NOSIGNAL, nullptr, 0);
        if (r <= 0) return;
        b += r;
        n -= (size_t)r;
    }
}

// Copies from -> to in pieces of the planned sizes until the end or `limit` bytes.
void relay(int from, int to, std::vector<size_t> pieces, size_t limit = SIZE_MAX) {
    std::vector<char> buf(1 << 16);
    for (size_t k = 0; limit; ++k) {
        size_t want = k > 10000 || pieces.empty() || pieces[k % pieces.size()] == 0 ? buf.size() : std::min(buf.size(), pieces[k % pieces.size()]);
        want = std::min(want, limit);
        ssize_t r = syscall(SYS_read, from, buf.data(), want);
        if (r <= 0) break;
        raw_write(to, buf.data(), (size_t)r);
        limit -= (size_t)r;
        if (k % 3 == 2) std::this_thread::yield();
    }
    shutdown(to, SHUT_WR);
}

std::vector<size_t> caps(pbt::Ctx& c) {
    std::vector<size_t> v;
    switch (c.weighted({2, 2, 4})) {
    case 0: return v;
    case 1: return {(size_t)c.pick<size_t>({1, 2, 3, 5, 7, 8, 9})};
    default: {
        size_t n = (size_t)c.range(1, 8);
        for (size_t i = 0; i < n; ++i) v.push_back(c.weighted({3, 2, 1}) == 0 ? (size_t)c.range(1, 12) : c.boolean() ? (size_t)c.range(1, 3000) : 0);
        return v;
    }
    }
}

std::string message(pbt::Ctx& c, size_t big) {
    size_t n = 0;
    switch (c.weighted({1, 4, 3, 2, 2})) {
    case 0: n = 0; break;
    case 4: {  // sizes at which a buffer, a digit or a byte of the length fills up
        static const std::vector<size_t> edge = {9, 15, 99, 127, 255, 511, 999, 1023, 2047, 4095, 8191, 9999, 16383, 32767, 65535, 99999, 131071, 262143};
        size_t k = 0;
        while (k < edge.size() && edge[k] + 1 <= big) ++k;
        n = k ? edge[c.index(k)] + c.index(2) + (c.chance(1, 4) ? 1 : 0) : 1;
        break;
    }
    case 1: n = (size_t)c.range(1, 12); break;
    case 2: n = (size_t)c.range(1, 600); break;
    default: n = (size_t)c.range(1, (int64_t)big);
    }
    static const char alpha[] = {0, '\n', 'A', ' ', (char)0xff, 8, '0', (char)0x80, 1, 'Z'};
    std::string s(n, 'a');
    uint64_t x = c.draw(1u << 20) * 2654435761u + 1;
    for (size_t i = 0; i < n; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s[i] = (x >> 60) < 8 ? alpha[(x >> 40) % sizeof alpha] : (char)('a' + (x >> 33) % 26);
    }
    return s;
}
Msgs messages(pbt::Ctx& c, size_t max, size_t big) {
    Msgs m;
    size_t n = (size_t)c.range(0, (int64_t)max);
    for (size_t i = 0; i < n; ++i) m.push_back(message(c, big));
    return m;
}
size_t total(const Msgs& m) {  // bytes on the wire in the documented "8 bytes | data" form
    size_t n = 0;
    for (auto& x : m) n += 8 + x.size();
    return n;
}
std::string brief(const Msgs& m) {
    std::string s = std::to_string(m.size()) + " messages of sizes";
    for (auto& x : m) s += " " + std::to_string(x.size());
    return s;
}
std::string brief(const std::vector<size_t>& v) {
    std::string s = "[";
    for (auto x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x);
    return s + "]";
}
std::string differs(const Msgs& got, const Msgs& want, const char* dir) {
    for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
        std::string w = std::string(dir) + ", message " + std::to_string(i) + ": ";
        if (i >= got.size()) return w + "not received";
        if (i >= want.size()) return w + "received but not sent, size " + std::to_string(got[i].size());
        if (got[i] != want[i])
            return w + "received differs from sent (sizes " + std::to_string(got[i].size()) + ", " + std::to_string(want[i].size()) + ")";
    }
    return "";
}

// ---- framing: both directions at once, arbitrary segmentation
void framing(pbt::Ctx& c) {
    bool proxied = c.boolean();
    bool tiny_buffers = c.chance(1, 3);
    inject::Plan ra{caps(c)}, wa{caps(c)}, rb{caps(c)}, wb{caps(c)};
    auto pa = caps(c), pb = caps(c);
    Msgs ab = messages(c, 8, c.chance(1, 6) ? 400000 : 5000), ba = messages(c, 8, 5000);
    c.note("a->b: " + brief(ab) + "; b->a: " + brief(ba) + (proxied ? "; relayed" : "") + "\nshort reads a " + brief(ra.caps) + " b " + brief(rb.caps) +
           ", short writes a " + brief(wa.caps) + " b " + brief(wb.caps) + ", relay pieces " + brief(pa) + " " + brief(pb) + "\n");
    auto [a, m] = sockets(true, tiny_buffers ? 1 : 0);
    Fd b, m2;
    std::vector<std::thread> relays;
    if (proxied) {
        auto s = sockets(true, tiny_buffers ? 1 : 0);
        m2 = std::move(s.first);
        b = std::move(s.second);
        relays.emplace_back(relay, m.fd, m2.fd, pa, SIZE_MAX);
        relays.emplace_back(relay, m2.fd, m.fd, pb, SIZE_MAX);
    } else {
        b = std::move(m);
    }
    inject::reads[a.fd] = &ra;
    inject::writes[a.fd] = &wa;
    inject::reads[b.fd] = &rb;
    inject::writes[b.fd] = &wb;
    std::string ea, eb;
    Msgs got_b, got_a;
    auto send_all = [](int fd, const Msgs& m, std::string& err) {
        try {
            for (auto& x : m) TCP::Send(fd, x);
        } catch (const std::exception& e) {
            err = std::string("sending failed: ") + e.what();
        }
        shutdown(fd, SHUT_WR);
    };
    auto recv_all = [](int fd, Msgs& m, std::string& err) {
        try {
            while (auto x = TCP::Receive(fd)) m.push_back(std::move(*x));
        } catch (const std::exception& e) {
            err = std::string("receiving failed: ") + e.what();
        }
    };
    std::string e1, e2, e3, e4;
    std::thread t1(send_all, a.fd, std::cref(ab), std::ref(e1)), t2(send_all, b.fd, std::cref(ba), std::ref(e2)),
        t3(recv_all, a.fd, std::ref(got_a), std::ref(e3));
    recv_all(b.fd, got_b, e4);
    t1.join();
    t2.join();
    t3.join();
    for (auto& t : relays) t.join();
    for (auto* e : {&e1, &e2, &e3, &e4})
        if (!e->empty()) c.fail(*e);
    std::string d = differs(got_b, ab, "a to b");
    if (d.empty()) d = differs(got_a, ba, "b to a");
    if (!d.empty()) c.fail(d);
    c.label(proxied ? "relayed" : "short reads/writes");
    if (ab.size() + ba.size() >= 2) c.nontrivial();
}

// ---- the peer goes away after any number of bytes
void cut(pbt::Ctx& c) {
    Msgs m = messages(c, 5, 3000);
    if (m.empty()) m.push_back("x");
    std::string stream;
    std::vector<size_t> ends;
    {
        auto [a, b] = sockets(true, 0);
        std::thread t([&, fd = a.fd] {
            for (auto& x : m) TCP::Send(fd, x);
            shutdown(fd, SHUT_WR);
        });
        // where each message ends, as the receiver sees it
        std::vector<char> buf(1 << 16);
        ssize_t r;
        while ((r = syscall(SYS_read, b.fd, buf.data(), buf.size())) > 0) stream.append(buf.data(), (size_t)r);
        t.join();
    }
    size_t at = (size_t)c.range(0, (int64_t)stream.size());
    if (c.chance(1, 4)) at = stream.size() - std::min<size_t>(stream.size(), (size_t)c.range(0, 9));
    inject::Plan r{caps(c)};
    auto pieces = caps(c);
    c.note(brief(m) + "; " + std::to_string(stream.size()) + " bytes, connection closed after " + std::to_string(at) + ", short reads " + brief(r.caps) + "\n");
    auto [a, b] = sockets(true, 0);
    inject::reads[b.fd] = &r;
    std::thread t([&, fd = a.fd] {
        size_t p = 0;
        for (size_t k = 0; p < at; ++k) {
            size_t n = pieces.empty() || !pieces[k % pieces.size()] ? at - p : std::min(at - p, pieces[k % pieces.size()]);
            raw_write(fd, stream.data() + p, n);
            p += n;
        }
        shutdown(fd, SHUT_WR);
    });
    Msgs got;
    bool ended = false, error = false;
    std::string what;
    try {
        for (size_t k = 0; k <= m.size() + 1; ++k) {
            auto x = TCP::Receive(b.fd);
            if (!x) {
                ended = true;
                break;
            }
            got.push_back(std::move(*x));
        }
    } catch (const TCP::TCPError& e) {
        error = true;
        what = e.what();
    }
    t.join();
    if (!ended && !error) c.fail("more messages received than sent");
    if (at == stream.size()) {
        if (error) c.fail("an orderly end of the connection is reported as a failure: " + what);
        auto d = differs(got, m, "before the end");
        if (!d.empty()) c.fail(d);
    } else {
        if (got.size() > m.size()) c.fail("more messages received than sent");
        if (got.size() == m.size()) c.fail("the last message was received although its end never arrived");
        Msgs head(m.begin(), m.begin() + (ptrdiff_t)got.size());
        auto d = differs(got, head, "before the cut");
        if (!d.empty()) c.fail(d);
        // every message that arrived whole must have been delivered: 8 bytes of length precede each (messenger format)
        size_t p = 0, whole = 0;
        for (auto& x : m) {
            p += stream.size() == total(m) ? 8 + x.size() : stream.size() + 1;
            if (p <= at) ++whole;
        }
        if (got.size() < whole) c.fail("only " + std::to_string(got.size()) + " of " + std::to_string(whole) + " whole messages delivered");
        c.nontrivial();
        c.label("cut inside a message");
    }
}

// ---- sending to a peer that is gone is an error, never a lost process
void gone(pbt::Ctx& c) {
    Msgs m = messages(c, 4, 300000);
    m.push_back(message(c, 100));
    size_t reads_first = (size_t)c.range(0, (int64_t)m.size());
    c.note(brief(m) + "; the peer closes after reading " + std::to_string(reads_first) + "\n");
    auto [a, b] = sockets(true, 0);
    inject::Plan w{caps(c)};
    inject::writes[a.fd] = &w;
    bool after = c.boolean();
    std::thread t([&] {
        for (size_t i = 0; i < reads_first; ++i) TCP::Receive(b.fd);
        b.reset();
    });
    if (after && reads_first == 0) t.join();
    bool failed = false;
    size_t sent = 0;
    try {
        for (auto& x : m) {
            TCP::Send(a.fd, x);
            ++sent;
        }
    } catch (const TCP::TCPError&) {
        failed = true;
    }
    if (t.joinable()) t.join();
    if (!failed) {  // everything was sent before the peer closed; now it certainly has
        try {
            TCP::Send(a.fd, "x");
            c.fail("a message sent to a closed connection is reported as sent");
        } catch (const TCP::TCPError&) {
        }
    } else if (sent < reads_first) {
        c.fail("sending failed while the peer was still there");
    }
    c.nontrivial();
    c.label("peer gone while sending");
}

// ---- in-process queues
void queues(pbt::Ctx& c) {
    Msgs ab = messages(c, 60, 40), ba = messages(c, 60, 40);
    bool owner = c.boolean();
    auto ya = caps(c), yb = caps(c);
    c.note("in-process; " + brief(ab) + "; back " + brief(ba) + "\n");
    ThreadQueue<std::string> q1, q2;
    std::unique_ptr<Messenger> a, b;
    if (owner) {
        auto o = std::make_unique<ThreadMessengerOwner>();
        b = std::make_unique<ThreadMessenger>(o->GetOutQueue(), o->GetInQueue());
        a = std::move(o);
    } else {
        a = std::make_unique<ThreadMessenger>(q1, q2);
        b = std::make_unique<ThreadMessenger>(q2, q1);
    }
    bool dialogue = c.chance(1, 3);  // every message answered before the next is sent
    Msgs got_b, got_a;
    auto nap = [](const std::vector<size_t>& y, size_t k) {
        if (!y.empty() && y[k % y.size()] % 3 == 1) std::this_thread::yield();
        if (!y.empty() && y[k % y.size()] % 16 == 7) std::this_thread::sleep_for(std::chrono::microseconds(50));
    };
    if (dialogue) {
        size_t n = std::min(ab.size(), ba.size());
        ab.resize(n);
        ba.resize(n);
        std::thread t([&] {
            for (size_t i = 0; i < n; ++i) {
                got_b.push_back(b->Receive().value());
                nap(yb, i);
                b->Send(ba[i]);
            }
        });
        for (size_t i = 0; i < n; ++i) {
            a->Send(ab[i]);
            nap(ya, i);
            got_a.push_back(a->Receive().value());
        }
        t.join();
    } else {
        auto tx = [&](Messenger& m, const Msgs& x, const std::vector<size_t>& y) {
            for (size_t i = 0; i < x.size(); ++i) {
                m.Send(x[i]);
                nap(y, i);
            }
        };
        auto rx = [&](Messenger& m, size_t n, Msgs& out, const std::vector<size_t>& y) {
            for (size_t i = 0; i < n; ++i) {
                out.push_back(m.Receive().value());
                nap(y, i + 1);
            }
        };
        std::thread t1([&] { tx(*a, ab, ya); }), t2([&] { tx(*b, ba, yb); }), t3([&] { rx(*a, ba.size(), got_a, yb); });
        rx(*b, ab.size(), got_b, ya);
        t1.join();
        t2.join();
        t3.join();
    }
    auto d = differs(got_b, ab, "a to b");
    if (d.empty()) d = differs(got_a, ba, "b to a");
    if (!d.empty()) c.fail(d);
    if (ab.size() >= 5) c.nontrivial();
    c.label("in-process queues");
}

// ---- a debugging session over sockets
struct SockMessenger : Messenger {  // the transport's functions over a socket of ours
    Fd fd;
    explicit SockMessenger(Fd f) : fd(std::move(f)) {}
    std::optional<std::string> Receive() override { return TCP::Receive(fd.fd); }
    void Send(const std::string& s) override { TCP::Send(fd.fd, s); }
};

struct Loopback {  // the real server and client
    std::vector<int> fds;
    Loopback() { inject::opened = &fds; }
    ~Loopback() { inject::opened = nullptr; }
    static int free_port() {
        int s = (int)syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t l = sizeof a;
        int port = 0;
        if (!bind(s, (sockaddr*)&a, sizeof a) && !getsockname(s, (sockaddr*)&a, &l)) port = ntohs(a.sin_port);
        close(s);
        return port;
    }
    // false: no port could be had (not the code's fault)
    bool connect(std::unique_ptr<TCP::TCPClient>& cl, std::unique_ptr<TCP::TCPServer>& sv) {
        for (int tries = 0; tries < 20; ++tries) {
            int port = free_port();
            if (!port) continue;
            sv = std::make_unique<TCP::TCPServer>(port);
            std::atomic<bool> bad{false}, done{false};
            std::thread t([&] {
                try {
                    sv->Initialize();
                } catch (const TCP::TCPError&) {
                    bad = true;
                }
                done = true;
            });
            bool up = false;
            for (int k = 0; k < 4000 && !bad && !up; ++k) {
                cl = std::make_unique<TCP::TCPClient>(port);
                try {
                    cl->Initialize();
                    up = true;
                } catch (const TCP::TCPError&) {
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                }
            }
            if (up || bad) t.join();
            else abort();
            if (up && !bad) return true;
        }
        return false;
    }
    void close_all() {  // only what nobody closed: the case's process goes on to other cases
        for (int f : fds) {
            inject::reads[f] = nullptr;
            inject::writes[f] = nullptr;
            if (fcntl(f, F_GETFD) != -1) close(f);
        }
    }
};

void session(pbt::Ctx& c) {
    bool real = c.chance(1, 3);
    inject::Plan ra{caps(c)}, wa{caps(c)}, rb{caps(c)}, wb{caps(c)};
    c.note(std::string("session over ") + (real ? "TCP" : "a socket pair") + ", short reads " + brief(ra.caps) + " " + brief(rb.caps) + ", writes " +
           brief(wa.caps) + " " + brief(wb.caps) + "\n");
    Loopback lo;
    bool discard = false;
    dbg::Session::transport() = [&]() -> dbg::Session::Ends {
        if (!real) {
            auto [a, b] = sockets(true, 0);
            inject::reads[a.fd] = &ra;
            inject::writes[a.fd] = &wa;
            inject::reads[b.fd] = &rb;
            inject::writes[b.fd] = &wb;
            return {std::make_unique<SockMessenger>(std::move(a)), std::make_unique<SockMessenger>(std::move(b))};
        }
        std::unique_ptr<TCP::TCPClient> cl;
        std::unique_ptr<TCP::TCPServer> sv;
        if (!lo.connect(cl, sv)) {
            discard = true;
            throw pbt::Discard{};
        }
        for (size_t i = 0; i < lo.fds.size(); ++i) {
            inject::reads[lo.fds[i]] = i % 2 ? &ra : &rb;
            inject::writes[lo.fds[i]] = i % 2 ? &wa : &wb;
        }
        return {std::move(cl), std::move(sv)};
    };
    dbg::Mix mix;
    mix.max_ops = 15;
    mix.bp = 3; mix.wp = 2; mix.cont = 3; mix.step = 3; mix.read = 2; mix.over = 0; mix.out = 0;
    mix.write_reg = mix.write_mem = mix.write_text = mix.write_freg = 1;
    {
        dbg::Fuzz f(c, mix);
        f.run();
        if (f.stats.conts + f.stats.steps >= 1) c.nontrivial();
    }
    dbg::Session::transport() = nullptr;
    lo.close_all();
    c.label(real ? "session over TCP" : "session over a socket pair");
}

// ---- one side of a session disappears
gen::Prog small_program(pbt::Ctx& c) {
    gen::Machine0 m;
    m.nr = 3;
    m.nf = 2;
    m.nm = 16;
    gen::Opts o;
    o.max_text = 12;
    o.max_steps = 80;
    gen::ProgGen g(c, m, o);
    return g.run();
}

// What a debugger's user sees; each entry either as on an unbroken connection or an error.
struct Views {
    std::vector<std::string> seen;
    bool failed = false;
};
Views look(Native& n, const std::vector<int>& plan) {
    Views v;
    auto put = [&](const std::string& s) { v.seen.push_back(s); };
    auto ev = [](const DebugEvent& e) { return dbg::map(e).str(); };
    try {
        put(ev(n.WaitForDebugEvent()));
        for (int op : plan) {
            std::string s;
            switch (op) {
            case 0:
                for (auto& [k, x] : n.GetRegisters()) s += k + "=" + std::to_string(x) + " ";
                break;
            case 1:
                for (auto& [k, x] : n.GetFloatRegisters()) s += k + "=" + model::float_text(x) + " ";
                break;
            case 2:
                for (auto x : n.ReadMemory(0, 16)) s += std::to_string(x) + " ";
                break;
            case 3:
                for (auto& x : n.ReadText(0, n.TextSize())) s += x + "; ";
                break;
            case 4:
                n.SetMemory(3, {123456789012345});
                s = "written";
                break;
            case 5:
                n.SetRegister("R1", -77);
                s = "written";
                break;
            case 6: s = ev(n.PerformSingleStep()); break;
            case 7:
                n.SetWatchpointWrite((uint64_t)5);
                n.RemoveWatchpoint((uint64_t)5);
                s = "watched";
                break;
            default:
                n.SetBreakpoint(0);
                n.UnsetBreakpoint(0);
                s = "broken";
            }
            put(s);
            if (s == "end" || s == "error") break;
        }
    } catch (const std::exception& e) {
        v.failed = true;
    }
    return v;
}

void vm_gone(pbt::Ctx& c) {
    gen::Prog p = small_program(c);
    std::vector<int> plan;
    size_t n = (size_t)c.range(1, 8);
    for (size_t i = 0; i < n; ++i) plan.push_back((int)c.index(9));
    size_t cutoff = (size_t)c.range(0, 900);
    auto pieces = caps(c);
    std::string pl;
    for (int x : plan) pl += " " + std::to_string(x);
    c.note(gen::render(p) + "operations" + pl + "; the machine's side of the connection is lost after " + std::to_string(cutoff) + " bytes\n");
    Views whole, broken;
    for (int round = 0; round < 2; ++round) {
        vm::reset();
        vm::IoCapture io(p.input);
        auto [a, b] = sockets(true, 0);
        std::thread cutter;
        Fd m1, m2;
        if (round) {
            auto s = sockets(true, 0);
            m1 = std::move(b);  // a <-> m1 | m2 <-> b
            m2 = std::move(s.first);
            b = std::move(s.second);
        }
        tiny::t86::OS os(p.m.nr, p.m.nf, p.m.nm);
        os.SetDebuggerComms(std::make_unique<SockMessenger>(std::move(b)));
        std::thread t([&] {
            try {
                os.Run(vm::load(p));
            } catch (const TCP::TCPError&) {
            }
        });
        std::vector<std::thread> rl;
        if (round) {
            rl.emplace_back(relay, m1.fd, m2.fd, std::vector<size_t>{}, SIZE_MAX);
            rl.emplace_back([&, f = m2.fd, g = m1.fd] {
                relay(f, g, pieces, cutoff);
                shutdown(g, SHUT_RDWR);  // the process is gone
                shutdown(f, SHUT_RDWR);
            });
        }
        {
            Native nat(std::make_unique<T86Process>(std::make_unique<SockMessenger>(std::move(a)), p.m.nr, p.m.nf, p.m.nm));
            (round ? broken : whole) = look(nat, plan);
        }  // the debugger is gone: the machine stops waiting for it
        t.join();
        if (round) {
            shutdown(m1.fd, SHUT_RDWR);
            shutdown(m2.fd, SHUT_RDWR);
        }
        for (auto& x : rl) x.join();
    }
    if (whole.failed) c.fail("an operation failed on an unbroken connection");
    for (size_t i = 0; i < broken.seen.size(); ++i) {
        if (i >= whole.seen.size()) c.fail("more answers on the broken connection");
        if (broken.seen[i] != whole.seen[i])
            c.fail("answer " + std::to_string(i) + " on the broken connection: \"" + broken.seen[i] + "\", on a whole one: \"" + whole.seen[i] + "\"");
    }
    if (!broken.failed && broken.seen.size() != whole.seen.size()) c.fail("answers missing");
    if (broken.failed) {
        c.nontrivial();
        c.label("connection lost in a session");
    }
}

void debugger_gone(pbt::Ctx& c) {
    gen::Prog p = small_program(c);
    static const std::vector<std::string> cmds = {"REASON", "SINGLESTEP", "PEEKREGS", "PEEKDATA 0 16", "CONTINUE", "PEEKTEXT 0 1", "POKEDATA 1 2"};
    std::vector<std::string> plan;
    size_t n = (size_t)c.range(0, 6);
    for (size_t i = 0; i < n; ++i) plan.push_back(c.pick(cmds));
    int64_t partial = c.range(0, 12);
    std::string pl;
    for (auto& x : plan) pl += x + "; ";
    c.note(gen::render(p) + "requests " + pl + " then " + std::to_string(partial) + " bytes of another and the connection is closed\n");
    vm::reset();
    vm::IoCapture io(p.input);
    auto [a, b] = sockets(true, 0);
    tiny::t86::OS os(p.m.nr, p.m.nf, p.m.nm);
    os.SetDebuggerComms(std::make_unique<SockMessenger>(std::move(b)));
    std::string strange;
    std::thread t([&] {
        try {
            os.Run(vm::load(p));
        } catch (const TCP::TCPError&) {
        } catch (const std::exception& e) {
            strange = e.what();
        }
    });
    try {
        for (auto& x : plan) TCP::Send(a.fd, x);
        std::string half("\x08\0\0\0\0\0\0\0REASO", 13);
        if (partial) raw_write(a.fd, half.data(), (size_t)partial);
    } catch (const TCP::TCPError&) {
    }
    a.reset();
    t.join();  // the machine does not wait for ever
    if (!strange.empty()) c.fail("the machine failed: " + strange);
    c.nontrivial();
    c.label("debugger lost");
}

// A session as `dbg-cli run` has it: debugger and machine are threads of one process.
void threads_session(pbt::Ctx& c) {
    dbg::Mix mix;
    mix.max_ops = 15;
    mix.write_reg = mix.write_mem = mix.write_text = mix.write_freg = 1;
    dbg::Fuzz f(c, mix);
    f.run();
    if (f.stats.conts + f.stats.steps >= 1) c.nontrivial();
    c.label("session between threads");
}

void prop(pbt::Ctx& c) {
    signal(SIGPIPE, SIG_DFL);  // as in the real programs
#ifdef __SANITIZE_THREAD__
    return c.boolean() ? queues(c) : threads_session(c);
#endif
    switch (c.weighted({6, 4, 2, 3, 4, 4, 2})) {
    case 0: return framing(c);
    case 1: return cut(c);
    case 2: return gone(c);
    case 3: return queues(c);
    case 4: return session(c);
    case 5: return vm_gone(c);
    default: return debugger_gone(c);
    }
}
}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.property = "C17";
    cfg.rule =
        "A case is one of: message sequences in both directions at once over sockets with injected short reads and writes and arbitrary "
        "segmentation; a connection cut after any number of bytes; a peer gone while sending; the in-process queues under two threads; a "
        "debugging session over sockets or loopback TCP against the reference debugger; a session whose machine or debugger disappears. "
        "Non-trivial: two or more messages, a cut inside a message, a lost peer, or a resumed session.";
#ifdef __SANITIZE_THREAD__
    cfg.rule = "With the thread sanitizer as a further oracle (no data race): the in-process queues under up to four threads; a session between threads.";
    cfg.quick_cases = 15000;
    cfg.thorough_cases = 200000;
    cfg.quick_secs = 12;
    cfg.thorough_secs = 300;
    cfg.case_timeout = 20;
    return pbt::Runner(cfg, prop).main(argc, argv);
#endif
    cfg.assumptions = {"sessions: as C07", "interrupted system calls (EINTR) are not injected: the programs install no signal handlers"};
    cfg.quick_cases = 40000;
    cfg.thorough_cases = 3000000;
    cfg.quick_secs = 40;
    cfg.thorough_secs = 900;
    cfg.case_timeout = 10;
    return pbt::Runner(cfg, prop).main(argc, argv);
}
