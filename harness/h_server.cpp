// web::runServer on a network in memory: every request text, division, response and fault within bounds.
#include "common.h"
#include <web-common/Server.h>
#include <web-common/Echo.h>
#include <web-common/URLEscape.h>
#include <ply-runtime/network/Socket.h>
#include <ply-runtime/io/OutStream.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>

struct Req {
    std::string method, uri, version;
    std::vector<std::pair<std::string, std::string>> fields;
    bool operator==(const Req& o) const { return method == o.method && uri == o.uri && version == o.version && fields == o.fields; }
};
struct Conn {
    std::string in, out;
    size_t pos = 0;
    std::set<size_t> cuts;      // a read never crosses one of these
    int fd = -1;
    bool open = true, readFailed = false, writeFailed = false;
    int faults = 0, errors = 0; // budgets, decided call by call
    u32 ip = 0; u16 port = 0;
    std::vector<Req> reqs;
    size_t answered = 0;
};
struct Net {
    bool active = false;
    std::vector<Conn*> conns;
    std::vector<int> accepts;   // >=0: that connection; <0: -errno
    size_t next = 0;
    int family = AF_INET;
    bool noV6 = false;
    int listenFd = -1, sockets = 0;
    bool listening = false;
    u16 port = 0;
    int failAt = -1, failErr = 0; // 0 socket, 1 setsockopt, 2 bind, 3 listen
    int later = 0;              // threads run only when the next connection is accepted
    std::vector<std::pair<void* (*) (void*), void*>> threads;
    std::string peer;           // the address connected to
};
static Net N;
struct Resp { int code = 0; std::string body; std::map<std::string, std::string> fields; bool chunked = false; };
static std::vector<Resp> responses(const std::string& out);
static const int LISTEN = 2000;
static Conn* conn(int fd) {
    if (!N.active) return nullptr;
    for (Conn* c : N.conns) if (c->fd == fd) return c;
    return nullptr;
}
static void runThreads() {
    while (!N.threads.empty()) {
        auto t = N.threads[0];
        N.threads.erase(N.threads.begin());
        t.first(t.second);
    }
}
extern "C" int socket(int family, int type, int) {
    if (!N.active) { errno = EMFILE; return -1; }
    MC_CHECK(type == SOCK_STREAM, "a socket of type %d", type);
    if (family == AF_INET6 && N.noV6) { errno = EAFNOSUPPORT; return -1; }
    if (N.failAt == 0) { errno = N.failErr; return -1; }
    N.family = family;
    N.sockets++;
    return LISTEN;
}
extern "C" int setsockopt(int fd, int, int, const void*, socklen_t) {
    MC_CHECK(N.active && fd == LISTEN, "setsockopt on descriptor %d", fd);
    return 0;
}
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t n) {
    MC_CHECK(N.active && fd == LISTEN, "bind on descriptor %d", fd);
    MC_CHECK(a->sa_family == N.family && n == (N.family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "the address is of family %d and %u bytes", a->sa_family, n);
    N.port = ntohs(N.family == AF_INET ? ((sockaddr_in*) a)->sin_port : ((sockaddr_in6*) a)->sin6_port);
    if (N.failAt == 2) { errno = N.failErr; return -1; }
    return 0;
}
extern "C" int listen(int fd, int) {
    MC_CHECK(N.active && fd == LISTEN, "listen on descriptor %d", fd);
    if (N.failAt == 3) { errno = N.failErr; return -1; }
    N.listening = true;
    return 0;
}
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
    MC_CHECK(N.active && fd == LISTEN, "connect on descriptor %d", fd);
    MC_CHECK(a->sa_family == N.family && n == (N.family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "the address is of family %d and %u bytes", a->sa_family, n);
    N.port = ntohs(N.family == AF_INET ? ((sockaddr_in*) a)->sin_port : ((sockaddr_in6*) a)->sin6_port);
    if (N.family == AF_INET) N.peer = std::string((const char*) &((sockaddr_in*) a)->sin_addr, 4);
    else N.peer = std::string((const char*) &((sockaddr_in6*) a)->sin6_addr, 16);
    if (N.failAt == 4) { errno = N.failErr; return -1; }
    return 0;
}
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* n) {
    MC_CHECK(N.active && fd == LISTEN && N.listening && N.sockets > 0, "accept on descriptor %d, which does not listen", fd);
    mc::step();
    if (!N.later) runThreads();
    if (N.next == N.accepts.size()) { // the listener is shut down: no more connections
        runThreads();
        if (N.next > N.accepts.size() + 3) mc::fail("the server accepts for ever from a listener that is shut down");
        errno = EINVAL;
        return -1;
    }
    int what = N.accepts[N.next++];
    if (what < 0) { MC_LOG("accept: errno %d", -what); errno = -what; return -1; }
    if (N.threads.size() > 1) runThreads();
    Conn* c = N.conns[what];
    if (N.family == AF_INET) {
        sockaddr_in s{};
        s.sin_family = AF_INET; s.sin_port = htons(c->port); s.sin_addr.s_addr = htonl(c->ip);
        memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s;
    } else {
        sockaddr_in6 s{};
        s.sin6_family = AF_INET6; s.sin6_port = htons(c->port);
        s.sin6_addr.s6_addr[10] = s.sin6_addr.s6_addr[11] = 0xff;
        u32 ip = htonl(c->ip); memcpy(s.sin6_addr.s6_addr + 12, &ip, 4);
        memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s;
    }
    MC_LOG("accept: connection %d, descriptor %d", what, c->fd);
    return c->fd;
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!N.active) {
        auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)) dlsym(RTLD_NEXT, "pthread_create");
        return real(t, attr, fn, arg);
    }
    *t = pthread_self();
    N.threads.push_back({fn, arg});
    return 0;
}
extern "C" int pthread_detach(pthread_t t) {
    if (!N.active) return ((int (*)(pthread_t)) dlsym(RTLD_NEXT, "pthread_detach"))(t);
    return 0;
}
// 0 complete, 1 short, 2 interrupted, 3 an error
static int outcome(Conn* c, size_t n) {
    int opts[4] = {0}, k = 1;
    if (c->faults > 0 && n > 1) opts[k++] = 1;
    if (c->faults > 0) opts[k++] = 2;
    if (c->errors > 0) opts[k++] = 3;
    return opts[choose(k)];
}
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    Conn* c = conn(fd);
    if (!c) return syscall(SYS_read, fd, buf, n);
    MC_CHECK(c->open, "the connection is read after it was closed");
    MC_CHECK(n > 0, "a read of 0 bytes");
    mc::step();
    if (c->readFailed) { errno = ECONNRESET; return -1; }
    if (!c->writeFailed && c->reqs.size() != c->answered) { // reading may block: the client must have its answers
        size_t n = responses(c->out).size();
        MC_CHECK(n == c->reqs.size(), "the server waits for the next request with %zu of %zu responses sent", n, c->reqs.size());
        c->answered = n;
    }
    size_t most = std::min(n, c->in.size() - c->pos);
    auto it = c->cuts.upper_bound(c->pos);
    if (it != c->cuts.end()) most = std::min(most, *it - c->pos);
    if (c->faults > 0 || c->errors > 0) {
        int k = outcome(c, most);
        if (k == 1) { c->faults--; most = 1; }
        else if (k == 2) { c->faults--; MC_LOG("  read: EINTR"); errno = EINTR; return -1; }
        else if (k == 3) { c->errors--; c->readFailed = true; MC_LOG("  read: ECONNRESET after %zu bytes", c->pos); errno = ECONNRESET; return -1; }
    }
    memcpy(buf, c->in.data() + c->pos, most);
    c->pos += most;
    return most;
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
    Conn* c = conn(fd);
    if (!c) return syscall(SYS_write, fd, buf, n);
    MC_CHECK(c->open, "the connection is written after it was closed");
    mc::step();
    if (c->writeFailed) { errno = EPIPE; return -1; }
    if (c->faults > 0 || c->errors > 0) {
        int k = outcome(c, n);
        if (k == 1) { c->faults--; n = 1; }
        else if (k == 2) { c->faults--; MC_LOG("  write: EINTR"); errno = EINTR; return -1; }
        else if (k == 3) { c->errors--; c->writeFailed = true; MC_LOG("  write: EPIPE after %zu bytes", c->out.size()); errno = EPIPE; return -1; }
    }
    c->out.append((const char*) buf, n);
    return n;
}
extern "C" int close(int fd) {
    if (N.active && fd == LISTEN) { MC_CHECK(N.sockets > 0, "the listening socket is closed twice"); N.sockets--; N.listening = false; return 0; }
    Conn* c = conn(fd);
    if (!c) return (int) syscall(SYS_close, fd);
    MC_CHECK(c->open, "the connection is closed twice");
    c->open = false;
    return 0;
}

//---------------------------------------------------------------- the handler
static std::string bigBody(size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char) ((i * 37 + i / 251) & 255);
    return s;
}
struct Answer { int code; std::string body; bool ok; }; // ok: a complete response
static Answer answer(const std::string& uri) {
    if (uri == "/e") return {200, "", true};
    if (uri == "/n") return {500, "*", true};
    if (uri == "/g") return {404, "*", true};
    if (uri == "/i") return {500, "*", true};
    if (uri == "/q") return {400, "*", true};
    if (uri == "/b") return {200, bigBody(5000), true};
    if (uri.compare(0, 2, "/#") == 0) return {200, bigBody(atoi(uri.c_str() + 2)), true};
    if (uri == "/h") return {200, "", false};
    return {200, uri, true};
}
static void handler(int* tag, StringView path, web::ResponseIface* resp) {
    MC_CHECK(*tag == 77, "the handler's context is %d", *tag);
    Req r;
    r.method = str(resp->request.startLine.method); r.uri = str(resp->request.startLine.uri); r.version = str(resp->request.startLine.httpVersion);
    for (auto& f : resp->request.headerFields) r.fields.push_back({str(f.name), str(f.value)});
    MC_CHECK(str(path) == r.uri, "the path is \"%s\", the URI \"%s\"", esc(str(path)).c_str(), esc(r.uri).c_str());
    // the connection it came from
    Conn* c = nullptr;
    for (Conn* k : N.conns) if (k->port == resp->request.clientPort) c = k;
    MC_CHECK(c, "the client's port is %u", resp->request.clientPort);
    MC_CHECK(resp->request.clientAddr.version() == IPAddress::V4, "the client's address is not IPv4");
    std::string ip = str(resp->request.clientAddr.toString()), want = std::to_string(c->ip >> 24) + "." + std::to_string(c->ip >> 16 & 255) + "." + std::to_string(c->ip >> 8 & 255) + "." + std::to_string(c->ip & 255);
    MC_CHECK(ip == want, "the client's address is %s instead of %s", ip.c_str(), want.c_str());
    c->reqs.push_back(r);
    MC_LOG("handler: %s %s", esc(r.method).c_str(), esc(r.uri).c_str());
    if (r.uri == "/n") return;
    if (r.uri == "/g") return resp->respondGeneric(web::ResponseCode::NotFound);
    if (r.uri == "/i") return resp->respondGeneric(web::ResponseCode::InternalError);
    if (r.uri == "/q") return resp->respondGeneric(web::ResponseCode::BadRequest);
    Answer a = answer(r.uri);
    OutStream* outs = resp->beginResponseHeader(web::ResponseCode::OK);
    *outs << "X-Test: 1\r\nContent-Type: text/plain\r\n\r\n";
    if (r.uri == "/h") return; // forgets endResponseHeader
    resp->endResponseHeader();
    if (r.uri == "/b") {
        for (size_t i = 0; i < a.body.size(); i += 1000) { outs->write(view(a.body).subStr(i, 1000)); if (i != 3000) outs->flush(); }
        outs->flush();
    } else outs->write(view(a.body));
}

//---------------------------------------------------------------- oracles
static bool white(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static std::string trimmed(std::string s, bool left = true) {
    while (!s.empty() && white(s.back())) s.pop_back();
    if (left) while (!s.empty() && white(s[0])) s.erase(0, 1);
    return s;
}
struct Expect {
    std::vector<Req> reqs;
    bool bad = false;     // a final 400
    bool loose = false;   // the outcome of the last request is not specified
};
static Expect expected(const std::string& in) {
    Expect e;
    size_t pos = 0;
    for (;;) {
        std::vector<std::string> lines;
        for (;;) {
            size_t nl = in.find('\n', pos);
            if (nl == std::string::npos) { // no blank line ends this request
                std::string rest = in.substr(pos);
                if (!rest.empty() && trimmed(rest).empty()) e.loose = true;
                e.bad = !lines.empty() || !rest.empty();
                return e;
            }
            std::string line = in.substr(pos, nl + 1 - pos);
            pos = nl + 1;
            if (trimmed(line).empty()) break;
            lines.push_back(line);
        }
        if (lines.empty()) return e; // closes
        std::string start = trimmed(lines[0], false);
        std::vector<std::string> tok{""};
        for (char c : start) if (c == ' ') tok.push_back(""); else tok.back() += c;
        // repeated, leading or other white space in the start line: refused or read as if single
        if (start.find('\t') != std::string::npos || start.find('\r') != std::string::npos) e.loose = true;
        for (size_t i = 0; i < tok.size();) if (tok[i].empty()) { e.loose = true; tok.erase(tok.begin() + i); } else i++;
        if (tok.size() != 3) { e.bad = true; return e; }
        Req r{tok[0], tok[1], tok[2], {}};
        for (size_t i = 1; i < lines.size(); i++) {
            if (white(lines[i][0])) continue; // folded lines are not supported
            size_t colon = lines[i].find(':');
            if (colon == std::string::npos) { e.bad = true; return e; }
            if (colon == 0) e.loose = true;
            r.fields.push_back({trimmed(lines[i].substr(0, colon), false), trimmed(lines[i].substr(colon + 1))});
        }
        e.reqs.push_back(r);
        if (e.loose) return e;
        if (!answer(r.uri).ok || r.version != "HTTP/1.1") return e;
    }
}
static std::string lower(std::string s) { for (char& c : s) c = tolower(c); return s; }
// An HTTP client's view of what the server sent
static std::vector<Resp> responses(const std::string& out) {
    std::vector<Resp> rs;
    size_t pos = 0;
    auto line = [&]() {
        size_t e = out.find("\r\n", pos);
        MC_CHECK(e != std::string::npos, "the response has an unterminated line: \"%s\"", esc(out.substr(pos, 60)).c_str());
        std::string l = out.substr(pos, e - pos);
        MC_CHECK(l.find('\n') == std::string::npos && l.find('\r') == std::string::npos, "the response has a bare line break in \"%s\"", esc(l).c_str());
        pos = e + 2;
        return l;
    };
    while (pos < out.size()) {
        Resp r;
        std::string status = line();
        static const std::map<int, std::string> texts = {{200, "OK"}, {400, "Bad Request"}, {404, "Not Found"}, {500, "Internal Server Error"}};
        for (auto& t : texts) if (status == "HTTP/1.1 " + std::to_string(t.first) + " " + t.second) r.code = t.first;
        MC_CHECK(r.code, "the status line is \"%s\"", esc(status.substr(0, 80)).c_str());
        for (std::string l; !(l = line()).empty();) {
            size_t c = l.find(':');
            MC_CHECK(c != std::string::npos && c > 0, "the response has the header line \"%s\"", esc(l).c_str());
            MC_CHECK(r.fields.insert({lower(l.substr(0, c)), trimmed(l.substr(c + 1))}).second, "the response repeats the header line \"%s\"", esc(l).c_str());
        }
        if (lower(r.fields["transfer-encoding"]) == "chunked") {
            r.chunked = true;
            for (;;) {
                std::string l = line();
                MC_CHECK(!l.empty() && l.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos, "a chunk's size is \"%s\"", esc(l.substr(0, 60)).c_str());
                size_t n = strtoul(l.c_str(), nullptr, 16);
                MC_CHECK(pos + n + 2 <= out.size(), "a chunk of %zu bytes is cut short", n);
                r.body += out.substr(pos, n);
                pos += n;
                MC_CHECK(out.compare(pos, 2, "\r\n") == 0, "a chunk of %zu bytes does not end with a line break", n);
                pos += 2;
                if (n == 0) break;
            }
        } else { r.body = out.substr(pos); pos = out.size(); }
        rs.push_back(r);
    }
    return rs;
}
static void start(int family = AF_INET) {
    N = Net{};
    N.active = true;
    Socket::HasIPv6 = false;
    Socket::initialize(family == AF_INET ? IPAddress::V4 : IPAddress::V6);
    N.sockets = 0;
}
static Conn* connect(const std::string& in) {
    Conn* c = new Conn;
    c->in = in;
    c->fd = 1000 + (int) N.conns.size();
    c->ip = 0xC0A80A00u + (u32) N.conns.size();
    c->port = (u16) (40000 + 333 * N.conns.size());
    N.accepts.push_back((int) N.conns.size());
    N.conns.push_back(c);
    return c;
}
static bool serve() {
    int tag = 77;
    bool ok;
    {
        web::RequestHandler h{handler, &tag};
        ok = web::runServer(8080, h);
    }
    runThreads();
    MC_CHECK(N.sockets == 0, "the listening socket is not closed");
    for (Conn* c : N.conns) if (N.next == N.accepts.size() && N.failAt < 0) MC_CHECK(!c->open, "the connection is not closed");
    return ok;
}
static void finish() {
    for (Conn* c : N.conns) delete c;
    N = Net{};
    std::vector<Conn*>().swap(N.conns);
}
static std::string show(const std::vector<Req>& rs) {
    std::string s;
    for (auto& r : rs) { s += "[" + r.method + "|" + r.uri + "|" + r.version; for (auto& f : r.fields) s += "|" + f.first + "=" + f.second; s += "]"; }
    return s;
}
static void checkSession(Conn* c, const std::string& in) {
    Expect e = expected(in);
    std::vector<Req> got = c->reqs;
    if (e.loose) { // the last request may be handled, refused, or end the connection
        if (got.size() + 1 == e.reqs.size()) e.reqs.pop_back();
        else if (got.size() == e.reqs.size() + 1) e.reqs.push_back(got.back());
        size_t at = c->out.rfind("HTTP/1.1 ");
        e.bad = at != std::string::npos && c->out.compare(at, 12, "HTTP/1.1 400") == 0;
    }
    MC_CHECK(got == e.reqs, "\"%s\": the handler gets %s instead of %s", esc(in).c_str(), esc(show(got)).c_str(), esc(show(e.reqs)).c_str());
    // what the client sees
    bool partial = !e.reqs.empty() && !answer(e.reqs.back().uri).ok;
    std::string out = c->out;
    if (partial) { // the handler did not complete the last response; those before it are complete
        size_t at = out.rfind("HTTP/1.1 ");
        MC_CHECK(at != std::string::npos, "no response");
        out = out.substr(0, at);
    }
    std::vector<Resp> rs = responses(out);
    size_t want = e.reqs.size() - (partial ? 1 : 0) + (e.bad ? 1 : 0);
    MC_CHECK(rs.size() == want, "\"%s\" gets %zu responses instead of %zu: \"%s\"", esc(in).c_str(), rs.size(), want, esc(c->out.substr(0, 300)).c_str());
    for (size_t i = 0; i < rs.size(); i++) {
        Answer a = i < e.reqs.size() ? answer(e.reqs[i].uri) : Answer{400, "*", true};
        MC_CHECK(rs[i].code == a.code, "\"%s\": response %zu is %d instead of %d", esc(in).c_str(), i, rs[i].code, a.code);
        if (a.body != "*") {
            MC_CHECK(rs[i].body == a.body, "\"%s\": response %zu has %zu bytes \"%s\" instead of %zu", esc(in).c_str(), i, rs[i].body.size(), esc(rs[i].body.substr(0, 100)).c_str(), a.body.size());
            MC_CHECK(rs[i].fields["content-type"] == "text/plain" && rs[i].fields["x-test"] == "1", "response %zu lost the handler's header lines", i);
        } else MC_CHECK(rs[i].body.find(std::to_string(a.code)) != std::string::npos && rs[i].fields.count("content-type"), "response %zu does not describe its error", i);
        bool last = i + 1 == rs.size();
        MC_CHECK(last || (rs[i].chunked && lower(rs[i].fields["connection"]) != "close"), "response %zu keeps the connection open but cannot be told from the next", i);
    }
    mc::state(hstr(c->out.substr(0, 4000), hstr(show(got))));
}

//---------------------------------------------------------------- scenarios
static void requests() {
    static const std::vector<std::string> alpha = {"GET", " ", "/", "HTTP/1.1", "\r\n", "\n", ":", "A", "\t"};
    static const std::vector<std::string> pre = {"", "GET / HTTP/1.1\r\n", "POST /a HTTP/1.1\r\nA: b\r\n\r\n", "GET / HTTP/1.0\r\nB:c\r\n"};
    std::string in = pre[choose(4)];
    int n = choose(pick(5, 7));
    for (int i = 0; i < n; i++) in += alpha[choose((int) alpha.size())];
    static const std::vector<std::string> end = {"", "\r\n\r\n", " / HTTP/1.1\n\n"};
    in += end[choose(3)];
    mc::casef("%s", esc(in).c_str());
    start();
    Conn* c = connect(in);
    MC_CHECK(serve() || true, " ");
    checkSession(c, in);
    if (!c->reqs.empty()) mc::nontrivial();
    finish();
}
static std::string chooseRequest(bool first) {
    static const std::vector<std::string> uris = {"/", "/e", "/n", "/g", "/b", "/h", "/i", "/a?x=%20&y", "/q"};
    static const std::vector<std::string> versions = {" HTTP/1.1", " HTTP/1.0", "", " HTTP/2 x"};
    static const std::vector<std::string> headers = {"", "Host: a.b:80\r\n", "A : b \r\n c\r\nD:\r\n", "nocolon\r\n", "X: \t y z\t\nConnection: close\r\n"};
    bool few = !first && !mc::tier(); // quick: fewer second requests
    std::string m = !few && choose(2) ? "POST" : "GET";
    std::string s = m + " " + uris[choose(few ? 6 : (int) uris.size())] + versions[choose(few ? 3 : 4)] + (!few && choose(2) ? "\n" : "\r\n") + headers[choose(few ? 4 : 5)];
    return s + (!few && choose(2) ? "\n" : "\r\n");
}
static void sessions() { // two requests on one connection, each fully enumerated
    std::string in = chooseRequest(true);
    if (choose(2)) in += chooseRequest(false); else in += choose(2) ? "GET / HT" : "";
    start();
    Conn* c = connect(in);
    serve();
    checkSession(c, in);
    mc::nontrivial();
    finish();
}
static void divided() { // every division at two places, three requests
    static const std::vector<std::string> rs = {"GET / HTTP/1.1\r\nHost: a\r\n\r\n", "GET /e HTTP/1.1\n\n", "POST /g HTTP/1.1\r\nA:b\r\n C\r\n\r\n", "GET /b HTTP/1.0\r\n\r\n", "GET /n HTTP/1.1\r\nbad\r\n\r\n"};
    std::string in;
    for (int i = 0; i < 3; i++) in += rs[choose(5)];
    int cut = choose((int) in.size() + 1);
    std::vector<size_t> seconds;
    for (size_t k = cut; k <= in.size(); k += k == (size_t) cut ? 1 : pick(7, 1)) seconds.push_back(k);
    bool all = choose(2);
    if (all && cut) { mc::markRedundant(); return; }
    for (size_t k : seconds) {
        start();
        Conn* c = connect(in);
        if (all) for (size_t i = 1; i < in.size(); i++) c->cuts.insert(i);
        else { c->cuts.insert(cut); c->cuts.insert(k); }
        serve();
        checkSession(c, in);
        finish();
        mc::step();
        if (all) break;
    }
    mc::nontrivial();
}
static void lengths() { // request lines, header lines and bodies of every length around the block sizes
    int what = choose(4), base = std::vector<int>{0, 250, 2040, 4090, 8180}[choose(5)];
    int d = choose(20), n = base + d;
    std::string in;
    std::string pad((size_t) n, 'p');
    if (what == 0) in = "GET /" + pad + " HTTP/1.1\r\nA: b\r\n\r\n";
    else if (what == 1) in = "GET / HTTP/1.1\r\nA: " + pad + "\r\nB: " + pad + "\r\n\r\n";
    else if (what == 2) in = "GET /#" + std::to_string(n) + " HTTP/1.1\r\n\r\n";
    else in = "GET /#" + std::to_string(n) + " HTTP/1.0\r\n\r\n";
    if (what != 3) in += "GET /z HTTP/1.1\r\n\r\n";
    start();
    Conn* c = connect(in);
    if (choose(2)) for (size_t i = 100; i < in.size(); i += 100) c->cuts.insert(i);
    serve();
    checkSession(c, in);
    mc::nontrivial();
    finish();
}
static void faults() { // every outcome of the reads and writes of a session
    static const std::vector<std::string> rs = {"GET / HTTP/1.1\r\nHost: a\r\n\r\n", "GET /b HTTP/1.1\r\n\r\n", "GET /g HTTP/1.0\r\n\r\n", "GET /n HTTP/1.1\r\nbad\r\n\r\n"};
    std::string in = rs[choose(4)] + rs[choose(4)];
    int faults = choose(pick(2, 3)), errors = choose(2), cut = choose(4);
    std::vector<Req> wholeReqs; std::string whole;
    auto plain = [&](const std::string& text) {
        start();
        Conn* c = connect(text);
        serve();
        wholeReqs = c->reqs; whole = c->out;
        finish();
    };
    plain(in);
    start();
    Conn* c = connect(in);
    c->faults = faults; c->errors = errors;
    if (cut) c->cuts.insert(in.size() * cut / 4);
    serve();
    if (c->writeFailed) {
        MC_CHECK(c->out == whole.substr(0, c->out.size()), "before the connection failed, the client got other bytes than without the failure");
        MC_CHECK(c->reqs.size() <= wholeReqs.size(), "the handler is called more often than without the failure");
        for (size_t i = 0; i < c->reqs.size(); i++) MC_CHECK(c->reqs[i] == wholeReqs[i], "request %zu differs from that without the failure", i);
    } else {
        std::string out = c->out; std::vector<Req> reqs = c->reqs;
        if (c->readFailed) {
            std::string cutShort = in.substr(0, c->pos);
            finish();
            plain(cutShort);
        }
        MC_CHECK(reqs == wholeReqs, "the handler gets %s instead of %s", esc(show(reqs)).c_str(), esc(show(wholeReqs)).c_str());
        MC_CHECK(out == whole, "the client gets %zu bytes instead of %zu", out.size(), whole.size());
    }
    if (faults || errors) mc::nontrivial();
    mc::state(hstr(whole, whole.size()));
    finish();
}
static void accepting() { // connections, failed accepts, IPv4 and IPv6, threads that start late
    int family = choose(2) ? AF_INET6 : AF_INET;
    bool noV6 = family == AF_INET6 && choose(2);
    static const int outcomes[] = {0, 1, -ECONNABORTED, -EINTR, -EMFILE, -EAGAIN};
    int n = choose(pick(4, 5)), later = choose(2), fd0 = choose(2);
    std::vector<int> plan;
    for (int i = 0; i < n; i++) plan.push_back(outcomes[choose(6)]);
    N = Net{}; N.active = true; N.noV6 = noV6;
    Socket::HasIPv6 = false;
    signal(SIGPIPE, SIG_DFL);
    Socket::initialize(family == AF_INET ? IPAddress::V4 : IPAddress::V6);
    MC_CHECK(Socket::HasIPv6 == (family == AF_INET6 && !noV6), "IPv6 is %s", Socket::HasIPv6 ? "used" : "not used");
    struct sigaction sa;
    sigaction(SIGPIPE, nullptr, &sa);
    MC_CHECK(sa.sa_handler == SIG_IGN, "a client that disconnects kills the server by SIGPIPE");
    N.sockets = 0;
    N.later = later;
    for (int p : plan) {
        if (p < 0) { N.accepts.push_back(p); continue; }
        connect(p ? "GET /a HTTP/1.1\r\n\r\nGET /b HTTP/1.1\r\n\r\n" : "GET /g HTTP/1.0\r\nA: b\r\n\r\n");
    }
    if (fd0 && !N.conns.empty()) N.conns[0]->fd = 0;
    serve();
    MC_CHECK(N.next == N.accepts.size(), "the server stops after %zu of %zu results of accept", N.next, N.accepts.size());
    MC_CHECK(N.port == 8080, "the port is %u", N.port);
    for (Conn* c : N.conns) checkSession(c, c->in);
    if (!N.conns.empty()) mc::nontrivial();
    finish();
}
static void starting() { // the listener cannot be created
    static const int errs[][3] = {{EMFILE, ENOBUFS, EAFNOSUPPORT}, {0, 0, 0}, {EADDRINUSE, EACCES, EINVAL}, {EADDRINUSE, EOPNOTSUPP, EINVAL}};
    int at = std::vector<int>{0, 2, 3}[choose(3)];
    int err = errs[at][choose(3)];
    start();
    N.failAt = at; N.failErr = err;
    bool ok = serve();
    MC_CHECK(!ok, "the server reports success although it could not listen");
    IPResult want = err == EADDRINUSE ? IPResult::InUse : at == 0 && err != EAFNOSUPPORT ? IPResult::NoSocket : IPResult::Unknown;
    MC_CHECK(Socket::lastResult() == want, "the result is %d instead of %d", (int) Socket::lastResult(), (int) want);
    mc::nontrivial();
    finish();
}
static void connecting() { // a client connects to an address, or cannot
    int family = choose(2) ? AF_INET6 : AF_INET, fail = choose(6);
    u16 port = std::vector<u16>{1, 80, 256, 8080, 65535}[choose(5)];
    int which = choose(family == AF_INET ? 2 : 3);
    static const int errs[][2] = {{0, 0}, {0, EMFILE}, {0, EAFNOSUPPORT}, {4, ECONNREFUSED}, {4, ENETUNREACH}, {4, ETIMEDOUT}};
    IPAddress addr;
    std::string want;
    if (which < 2) {
        u8 b[4] = {(u8) (which ? 10 : 127), 2, 200, 1};
        u32 net; memcpy(&net, b, 4);
        addr = IPAddress::fromIPv4(net);
        want = std::string((char*) b, 4);
        if (family == AF_INET6) want = std::string(10, '\0') + "\xff\xff" + want;
    } else {
        for (int i = 0; i < 16; i++) want += (char) (i * 17 + 1);
        memcpy(&addr, want.data(), 16);
    }
    start(family);
    N.failAt = fail ? errs[fail][0] : -1; N.failErr = errs[fail][1];
    {
        Owned<TCPConnection> c = Socket::connectTCP(addr, port);
        MC_CHECK(!!c == !fail, "connecting %s", fail ? "succeeds although the system call failed" : "fails");
        static const IPResult results[] = {IPResult::OK, IPResult::NoSocket, IPResult::Unknown, IPResult::Refused, IPResult::Unreachable, IPResult::Unknown};
        MC_CHECK(Socket::lastResult() == results[fail], "the result is %d instead of %d", (int) Socket::lastResult(), (int) results[fail]);
        if (fail == 0 || fail > 2) MC_CHECK(N.port == port && N.peer == want, "the connection goes to port %u instead of %u or to another address", N.port, port);
        if (c) {
            MC_CHECK(memcmp(&c->remoteAddress(), &addr, 16) == 0 && c->remotePort() == port && c->getHandle() == LISTEN, "the connection does not describe its peer");
            MC_CHECK(N.sockets == 1, "the connection is already closed");
        }
    }
    MC_CHECK(N.sockets == 0, "the socket is not closed");
    mc::state(hstr(want, port * 8 + fail));
    if (fail) mc::nontrivial();
    finish();
}
static void echo() { // the echo handler shows the request as text
    static const std::vector<std::string> special = {"a", "<b>", "&amp;", "\"", "%3C", ">"};
    std::string uri = "/", name = "H", value;
    for (int i = 0; i < 2; i++) uri += special[choose(6)];
    name += special[choose(6)];
    for (int i = 0; i < 2; i++) value += special[choose(6)];
    std::string in = "GET " + uri + " HTTP/1.1\r\n" + name + ": " + value + "\r\n\r\n";
    start();
    Conn* c = connect(in);
    {
        web::RequestHandler h{web::echo_serve, (const void*) nullptr};
        web::runServer(8080, h);
    }
    runThreads();
    auto rs = responses(c->out);
    MC_CHECK(rs.size() == 1 && rs[0].code == 200, "%zu responses", rs.size());
    auto xml = [](const std::string& s) { std::string o; for (char ch : s) { if (ch == '<') o += "&lt;"; else if (ch == '>') o += "&gt;"; else if (ch == '&') o += "&amp;"; else if (ch == '"') o += "&quot;"; else o += ch; } return o; };
    MC_CHECK(rs[0].body.find("GET " + xml(uri) + " HTTP/1.1\n") != std::string::npos, "the echo of the start line \"%s\" is not in the page", esc(uri).c_str());
    MC_CHECK(rs[0].body.find(xml(name) + ": " + xml(value) + "\n") != std::string::npos, "the echo of the field \"%s: %s\" is not in the page", esc(name).c_str(), esc(value).c_str());
    mc::nontrivial();
    finish();
}
MC_SCENARIOS = {
    {"requests", requests, mc::LEAKS, "every request text of up to 4 (thorough 6) pieces from HTTP's special characters after each of four beginnings"},
    {"sessions", sessions, mc::LEAKS, "every pair of requests on one connection: methods, URIs, versions, header lines, line endings"},
    {"divided", divided, mc::LEAKS, "every three requests, cut at every place and every second place (quick: every seventh)"},
    {"lengths", lengths, mc::LEAKS, "request lines, header fields and bodies of every length around the stream's blocks"},
    {"faults", faults, mc::LEAKS, "two requests, every outcome of every read and write: short, interrupted, reset, broken pipe"},
    {"accepting", accepting, mc::LEAKS, "every sequence of up to 3 (thorough 4) connections and failed accepts, over IPv4 and IPv6"},
    {"starting", starting, mc::LEAKS, "every failure to create, bind or listen"},
    {"connecting", connecting, mc::LEAKS, "client connections over IPv4 and IPv6, successful or failing at each system call"},
    {"echo", echo, mc::LEAKS, "the echo handler on special characters"},
    MC_END};
