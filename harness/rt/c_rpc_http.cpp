// C14: the HTTP transport against a scripted local server.
#include "../pbt.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sys/socket.h>
#include <thread>
#include "sdfg/util/utils_curl.h"
using namespace pbt;

struct Script {
    int status;
    std::string body;
    int mode; // 0 content-length 1 chunked 2 close-delimited 3 truncated 4 closes at once
    size_t split;
};
static std::string g_request;
static const char B[] = "{}[]\":,abcxyz019 \n\\\xc3\xa9";
static const char P[] = "{}[]\":,abcxyz019 \n\\&=%+\xc3\xa9";

static void serve(int ls, Script sc) {
    int fd = accept(ls, nullptr, nullptr);
    if (fd < 0) return;
    std::string req;
    char buf[65536];
    size_t need = std::string::npos;
    if (sc.mode == 4) {
        close(fd);
        return;
    }
    while (true) {
        size_t h = req.find("\r\n\r\n");
        if (h != std::string::npos && need == std::string::npos) {
            std::string low = req.substr(0, h);
            for (auto& ch : low) ch = tolower(ch);
            size_t p = low.find("content-length:");
            need = h + 4 + (p == std::string::npos ? 0 : strtoull(low.c_str() + p + 15, nullptr, 10));
            if (low.find("expect: 100-continue") != std::string::npos) {
                const char* k = "HTTP/1.1 100 Continue\r\n\r\n";
                if (write(fd, k, strlen(k))) {
                }
            }
        }
        if (need != std::string::npos && req.size() >= need) break;
        ssize_t n = read(fd, buf, sizeof buf);
        if (n <= 0) break;
        req.append(buf, n);
    }
    g_request = req;
    std::string out = "HTTP/1.1 " + std::to_string(sc.status) + " Some Reason\r\nContent-Type: application/json\r\n";
    bool nobody = sc.status == 204 || sc.status == 304;
    if (sc.status / 100 == 3) out += "Location: /elsewhere\r\n";
    if (sc.split % 7 == 0) out += "Set-Cookie: a=b\r\nX-Filler: " + std::string(sc.split % 3000, 'f') + "\r\n";
    if (nobody) out += "\r\n";
    else if (sc.mode == 0 || sc.mode == 3)
        out += "Content-Length: " + std::to_string(sc.body.size() + (sc.mode == 3 ? 10 : 0)) + "\r\n\r\n" + sc.body;
    else if (sc.mode == 1) {
        out += "Transfer-Encoding: chunked\r\n\r\n";
        size_t k = sc.split % (sc.body.size() + 1);
        for (auto part : {sc.body.substr(0, k), sc.body.substr(k)}) {
            if (part.empty()) continue;
            char hx[32];
            snprintf(hx, sizeof hx, "%zx\r\n", part.size());
            out += hx + part + "\r\n";
        }
        out += "0\r\n\r\n";
    } else
        out += "Connection: close\r\n\r\n" + sc.body;
    size_t off = 0;
    while (off < out.size()) {
        ssize_t n = send(fd, out.data() + off, std::min<size_t>(out.size() - off, out.size() > 100000 ? 20000 + sc.split : 1 + (sc.split % 5000)), MSG_NOSIGNAL);
        if (n <= 0) break;
        off += n;
    }
    shutdown(fd, SHUT_WR);
    while (read(fd, buf, sizeof buf) > 0) {
    }
    close(fd);
}

// one request; a handle may be used for several, each with its own server, payload and headers
static void request(Src& s, Case& c, CURL* curl, bool& had_headers, curl_slist*& old) {
    int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    // rotate over 127.x.y.z so that connections in TIME_WAIT never exhaust the ports of one address
    static unsigned turn = 0;
    ++turn;
    unsigned addr = 0x7f000000u | (((unsigned) getpid() & 0xffff) << 8) | (1 + turn % 250);
    a.sin_addr.s_addr = htonl(addr);
    if (bind(ls, (sockaddr*) &a, sizeof a)) c.discard();
    socklen_t al = sizeof a;
    getsockname(ls, (sockaddr*) &a, &al);
    int port = ntohs(a.sin_port);
    std::string path = "/docc/" + s.text(6, "abc");
    std::string url = std::string("http://") + inet_ntoa(a.sin_addr) + ":" + std::to_string(port) + path;
    Script sc;
    sc.status = s.weighted({3, 1}) == 0 ? s.pick<int>({200, 401, 500, 201, 202, 203, 204, 400, 403, 404, 301, 302, 307, 429, 503}) : (int) s.range(200, 599);
    size_t bl = s.chance(10) ? s.below(60000) : s.len(300);
    if (s.chance(1)) bl = s.pick<size_t>({16384, 16385, 65536, 65535, 102400, 1 << 20, (1 << 20) + 5});
    uint64_t st = s.below(1 << 20);
    for (size_t i = 0; i < bl; ++i) sc.body += B[splitmix(st) % (sizeof B - 1)];
    sc.mode = s.weighted({5, 3, 2, 1, 1});
    sc.split = s.below(60000);
    std::string payload;
    size_t pl = s.chance(15) ? s.below(20000) : s.len(200);
    if (s.chance(1)) pl = s.pick<size_t>({65536, 65535, 1 << 20, (1 << 20) + 1, 1500000, 131072});
    for (size_t i = 0; i < pl; ++i) payload += P[splitmix(st) % (sizeof P - 1)];
    bool refused = s.chance(6);
    std::vector<std::pair<std::string, std::string>> hs;
    bool many = s.chance(3);
    while (s.more(hs.size(), many ? 40 : 4, many ? 20 : 1.5)) hs.push_back({"X-H" + std::to_string(hs.size()), "v" + s.text(8, "abc 1:=")});
    if (many && !hs.empty() && s.flip()) hs[0].second += std::string(s.pick<size_t>({300, 1024, 4096, 9000}), 'L');
    if (hs.empty() && had_headers) hs.push_back({"X-H0", "again"}); // the handle still refers to the last list otherwise
    had_headers |= !hs.empty();
    while (!hs.empty() && hs.back().second.back() == ' ') hs.back().second.pop_back();
    for (auto& h : hs)
        while (h.second.back() == ' ') h.second.pop_back();
    c << "status " << sc.status << " mode " << sc.mode << " body " << sc.body.size() << " payload " << payload.size() << " headers " << hs.size()
      << (refused ? " refused" : "") << "\n";
    bool nobody = sc.status == 204 || sc.status == 304;
    g_request.clear();
    std::thread th;
    // a bound socket that does not listen refuses connections and keeps its port reserved
    if (!refused && listen(ls, 4)) {
        close(ls);
        c.discard();
    }
    if (!refused) th = std::thread(serve, ls, sc);
    struct curl_slist* list = nullptr;
    for (auto& [k, v] : hs) list = curl_slist_append(list, (k + ": " + v).c_str());
    HttpResult r = post_json(curl, url, payload, list);
    if (list) {
        curl_slist_free_all(old);
        old = list; // referenced by the handle until the next request
    }
    if (!refused) {
        shutdown(ls, SHUT_RDWR);
        th.join();
    }
    close(ls);
    if (refused || sc.mode == 4 || (sc.mode == 3 && !nobody)) {
        c.check(r.curl_code != CURLE_OK, "a failed transfer was reported as complete");
        c.check(!r.error_message.empty(), "a failed transfer has no error message");
        c.label("transport fault");
    } else {
        c.check(r.curl_code == CURLE_OK, std::string("transfer failed: ") + curl_easy_strerror(r.curl_code));
        c.check(r.http_status == sc.status, "status " + std::to_string(r.http_status) + ", server sent " + std::to_string(sc.status));
        c.check(r.body == (nobody ? "" : sc.body), "body of " + std::to_string(r.body.size()) + " bytes, server sent " + std::to_string(sc.body.size()));
        bool ok = sc.status >= 200 && sc.status < 204;
        c.check(r.error_message.empty() == ok, ok ? "error message for a successful answer: " + r.error_message : "no error message for status " + std::to_string(sc.status));
        if (!ok) c.check(r.error_message.find(std::to_string(sc.status)) != std::string::npos, "error message does not name the status");
        if (sc.status == 401) c.check(r.error_message.find("auth") != std::string::npos, "401 is not reported as an authentication problem");
        c.label(ok ? "success" : sc.status == 401 ? "401" : "http error");
    }
    if (!refused && sc.mode != 4) {
        size_t h = g_request.find("\r\n\r\n");
        c.check(h != std::string::npos, "no complete request arrived");
        c.check(g_request.compare(0, 5, "POST ") == 0, "the request is not a POST");
        c.check(g_request.compare(5, path.size() + 1, path + " ") == 0, "the request goes to another path");
        c.check(g_request.substr(h + 4) == payload, "the payload arrived altered (" + std::to_string(g_request.size() - h - 4) + " of " + std::to_string(payload.size()) + " bytes)");
        for (auto& [k, v] : hs) c.check(g_request.find("\r\n" + k + ": " + v + "\r\n") != std::string::npos, "header " + k + " was not sent");
    }
    if (bl || pl) c.nontrivial(c.trace.str());
}
static void prop(Src& s, Case& c) {
    CURL* curl = curl_easy_init();
    curl_easy_setopt(curl, CURLOPT_NOSIGNAL, 1L);
    curl_easy_setopt(curl, CURLOPT_NOPROXY, "*");
    curl_easy_setopt(curl, CURLOPT_FORBID_REUSE, 1L); // every request has a server of its own, which waits for the connection to end
    bool had_headers = false;
    curl_slist* old = nullptr;
    struct Guard {
        CURL* h;
        curl_slist*& l;
        ~Guard() {
            curl_easy_cleanup(h);
            curl_slist_free_all(l);
        }
    } guard{curl, old};
    size_t n = s.chance(15) ? 2 + s.below(2) : 1;
    for (size_t i = 0; i < n; ++i) request(s, c, curl, had_headers, old);
    if (n > 1) c.label("several requests over one handle");
}
int main(int argc, char** argv) {
    curl_global_init(CURL_GLOBAL_DEFAULT);
    Options o;
    o.id = "C14";
    o.rule = "random status, body, transfer encoding, transport fault, payload and headers against a scripted loopback server; non-trivial = "
             "non-empty payload or body, distinct by case description";
    o.quick = 12000;
    o.thorough = 150000;
    return Runner(o, prop).main(argc, argv);
}
