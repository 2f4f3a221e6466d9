// C12: RPC target configuration - layering of defaults, files, environment, headers.
// C13: credential discovery (built with -DAUTH=1).
#include "../pbt.h"
#include <filesystem>
#include <nlohmann/json.hpp>
#include <stdarg.h>
#include <sys/syscall.h>
#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#ifndef AUTH
#define AUTH 0
#endif
using namespace pbt;
using namespace sdfg::passes::rpc;
namespace fs = std::filesystem;

// The machine-wide session file is redirected into the scratch directory, so that no system path is touched.
static std::string g_session;
static int g_session_hits = 0;
static const char* redirect(const char* p) {
    if (p && !strcmp(p, "/var/lib/daisytuner/session")) {
        ++g_session_hits;
        return g_session.c_str();
    }
    return p;
}
extern "C" {
FILE* fopen64(const char* p, const char* m) {
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = syscall(SYS_openat, AT_FDCWD, redirect(p), fl, 0666);
    if (fd < 0) return nullptr;
    return fdopen(fd, m);
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
}

static const char* VARS[] = {"DOCC_JOB_TOKEN", "DOCC_ACCESS_TOKEN", "RPC_SERVER", "SDFG_RPC_CONFIG", "RPC_HEADER", "OTHER_CONFIG", "OTHER_HEADER"};
static std::string word(Src& s) {
    std::string w = "t" + s.text(10, "abcXYZ019-_.~");
    if (s.chance(3)) {
        // tokens can be long, e.g. signed ones
        size_t n = s.pick<size_t>({64, 255, 256, 1023, 1024, 4095, 4096, 8192}) + s.below(3);
        while (w.size() < n) w += "abcXYZ019-_.~/+="[w.size() * 7 % 16];
    }
    return w;
}

struct Auth {
    bool found = false, job = false;
    std::string token;
};
static Auth setup_auth(Src& s, Case& c, const fs::path& root) {
    Auth a;
    int job = s.below(3), acc = s.below(3), home = s.below(4), sess = s.below(3);
    unsetenv("DOCC_JOB_TOKEN");
    unsetenv("DOCC_ACCESS_TOKEN");
    static const std::vector<std::string> trail = {"", "\n", " \n", "\r\n\t ", "\n\n"};
    std::string jt = word(s), at = word(s), ht = word(s), st = word(s);
    if (s.chance(15)) ht = s.pick<std::string>({"two words", "two\nlines", " leading", "\tx", "a \n b"});
    if (s.chance(10)) st = s.pick<std::string>({"two words", "two\nlines", " leading", "a \n b"});
    if (s.chance(10)) jt = s.pick<std::string>({"two words", " leading", "trailing ", "trail\n"}); // used as given
    if (s.chance(10)) at = s.pick<std::string>({"two words", " leading", "trailing ", "trail\n"});
    if (job == 1) setenv("DOCC_JOB_TOKEN", "", 1);
    if (job == 2) setenv("DOCC_JOB_TOKEN", jt.c_str(), 1);
    if (acc == 1) setenv("DOCC_ACCESS_TOKEN", "", 1);
    if (acc == 2) setenv("DOCC_ACCESS_TOKEN", at.c_str(), 1);
    fs::path h = root / s.pick<std::string>({"home", "home dir", "h/o/m/e"});
    if (s.chance(3)) h = root / std::string(200, 'h') / std::string(200, 'i');
    if (home == 0) unsetenv("HOME");
    else setenv("HOME", home == 3 ? "" : h.c_str(), 1);
    fs::create_directories(h);
    if (home == 1) {
        fs::create_directories(h / ".config" / "docc");
        std::ofstream(h / ".config" / "docc" / "token") << ht << s.pick(trail);
    }
    g_session = (root / "session").string();
    if (sess) std::ofstream(g_session) << st << s.pick(trail);
    if (job == 2) a = {true, true, jt};
    else if (acc == 2) a = {true, false, at};
    else if (home == 1) a = {true, false, ht};
    else if (sess) a = {true, false, st};
    c << "job " << job << " access " << acc << " home " << home << " session " << sess << " -> " << (a.found ? a.token : "none") << "\n";
    c.label(job == 2 ? "from job token" : acc == 2 ? "from access token" : home == 1 ? "from home file" : sess ? "from session file" : "no credentials");
    return a;
}

static void prop(Src& s, Case& c) {
    fs::path root = fs::path(c.scratch) / "rpc";
    fs::remove_all(root);
    fs::create_directories(root);
    for (auto v : VARS) unsetenv(v);
    g_session = (root / "session").string();
    g_session_hits = 0;
    int server_env = s.below(3);
    std::string srv = "http://" + word(s) + ":80/x";
    if (server_env == 1) setenv("RPC_SERVER", "", 1);
    if (server_env == 2) setenv("RPC_SERVER", srv.c_str(), 1);
    const std::string DS = DaisytunerRpcContext::DEFAULT_SERVER, DE = DaisytunerRpcContext::DEFAULT_ENDPOINT;
    std::string want_srv = server_env == 2 ? srv : DS;
    if (AUTH) {
        Auth a = setup_auth(s, c, root);
        auto f = DaisytunerRpcContext::find_docc_auth();
        bool session_decides = getenv("HOME") == nullptr || true;
        (void) session_decides;
        if (a.found && !f.has_value() && g_session_hits == 0 && fs::exists(g_session)) c.discard();
        c.check(f.has_value() == a.found, a.found ? "credentials were not found" : "credentials found although there are none");
        if (a.found) {
            c.check(f->first == a.token, "token is '" + f->first + "', expected '" + a.token + "'");
            c.check(f->second == a.job, "token kind is wrong");
        }
        std::string hdr = (a.job ? "Job " : "Token ") + a.token;
        if (a.found) c.check(DaisytunerRpcContext::build_auth_header_content(*f) == hdr, "authorization header content");
        try {
            auto ctx = DaisytunerRpcContext::from_docc_config();
            c.check(a.found, "a context was built without credentials");
            c.check(ctx->get_remote_address() == want_srv + "/" + DE, "address is " + ctx->get_remote_address());
            auto h = ctx->get_auth_headers();
            c.check(h.size() == 1 && h.count("Authorization") && h["Authorization"] == hdr, "headers of the context are wrong");
        } catch (const std::runtime_error&) {
            c.check(!a.found, "no context although credentials exist");
        }
        DaisytunerRpcContext direct("xyz", a.job);
        c.check(direct.get_auth_headers().at("Authorization") == std::string(a.job ? "Job xyz" : "Token xyz"), "explicit token header");
        c.check(direct.get_remote_address() == want_srv + "/" + DE, "explicit context address");
        SimpleRpcContextBuilder b;
        b.server = "s0";
        b.endpoint = "e0";
        b.headers["K"] = "V";
        b.from_docc_config();
        auto bh = b.headers;
        if (a.found) {
            c.check(b.server == want_srv && b.endpoint == DE, "builder target from credentials");
            c.check(bh.size() == 2 && bh["Authorization"] == hdr && bh["K"] == "V", "builder headers from credentials");
        } else
            c.check(b.server == "s0" && b.endpoint == "e0" && bh.size() == 1, "builder changed without credentials");
        c.nontrivial(c.trace.str() + want_srv);
        return;
    }
    // C12: a random sequence of builder steps against a model
    SimpleRpcContextBuilder b;
    std::string server, endpoint;
    std::map<std::string, std::string> headers;
    int steps = 0, changes = 0;
    unsetenv("HOME");
    while (s.more(steps, 10, 4)) {
        ++steps;
        switch (s.below(6)) {
            case 0:
                b.initialize_local_default();
                server = "http://localhost:8080/docc";
                endpoint = "transfertune";
                c << "local default\n";
                break;
            case 1:
            case 2: {
                nlohmann::json j = nlohmann::json::object();
                std::string ns = server, ne = endpoint;
                auto nh = headers;
                int k = s.below(3);
                if (k == 1) j["SERVER"] = ns = "http://" + word(s);
                if (k == 2) j["SERVER"] = 5; // ignored: not a string
                k = s.below(3);
                if (k == 1) j["ENDPOINT"] = ne = word(s);
                if (k == 2) j["ENDPOINT"] = nlohmann::json::array({"x"});
                k = s.below(4);
                if (k == 1 || k == 2) {
                    j["HEADERS"] = nlohmann::json::object();
                    bool many = s.chance(5);
                    while (s.more(j["HEADERS"].size(), many ? 40 : 4, many ? 20 : 1.5)) {
                        std::string key = many && s.flip() ? "X-" + std::to_string(s.below(60)) : s.pick<std::string>({"Authorization", "X-A", "X-B", "RPC-Hint"});
                        if (s.chance(20)) {
                            if (!j["HEADERS"].contains(key)) j["HEADERS"][key] = 3;
                        } else
                            j["HEADERS"][key] = word(s);
                    }
                    for (auto& [key, v] : j["HEADERS"].items())
                        if (v.is_string()) nh[key] = v.get<std::string>();
                }
                if (k == 3) j["HEADERS"] = "none";
                if (s.flip()) j["UNKNOWN"] = {{"a", 1}};
                fs::path f = root / ("cfg" + std::to_string(steps) + ".json");
                std::ofstream(f) << j.dump();
                int how = s.below(4);
                if (how == 0) b.from_file(f);
                else if (how == 1) {
                    setenv("SDFG_RPC_CONFIG", f.c_str(), 1);
                    b.from_env();
                } else if (how == 2) {
                    setenv("OTHER_CONFIG", f.c_str(), 1);
                    b.from_env("OTHER_CONFIG");
                } else {
                    if (s.flip()) setenv("SDFG_RPC_CONFIG", "", 1);
                    else unsetenv("SDFG_RPC_CONFIG");
                    b.from_env();
                    ns = server;
                    ne = endpoint;
                    nh = headers;
                }
                server = ns;
                endpoint = ne;
                headers = nh;
                c << (how == 0 ? "file " : how == 3 ? "unset env " : "env file ") << j.dump() << "\n";
                ++changes;
                break;
            }
            case 3: {
                std::string var = s.flip() ? "RPC_HEADER" : "OTHER_HEADER", val;
                int k = s.below(5);
                if (k == 0) unsetenv(var.c_str());
                else if (k == 1) setenv(var.c_str(), "", 1);
                else if (k == 2) {
                    val = word(s);
                    setenv(var.c_str(), val.c_str(), 1);
                    headers["RPC-Hint"] = val;
                } else {
                    std::string key = s.pick<std::string>({"X-A", "Authorization", "X-C"});
                    std::string v = k == 3 ? word(s) : word(s) + ":" + word(s);
                    if (s.chance(10)) v = s.pick<std::string>({"", " leading", ":", "a:b:c:d", "trailing "});
                    if (s.chance(5)) key = "";
                    val = key + ":" + v;
                    setenv(var.c_str(), val.c_str(), 1);
                    headers[key] = v;
                }
                if (var == "RPC_HEADER" ) b.from_header_env();
                else b.from_header_env(var);
                c << "header env " << val << "\n";
                ++changes;
                break;
            }
            case 4: {
                std::string key = s.pick<std::string>({"X-A", "X-B", "Authorization"}), v = s.chance(10) ? "" : word(s);
                if (s.chance(10)) v = s.pick<std::string>({" x", "x ", "a: b", "Token t"});
                b.add_header(key, v);
                headers[key] = v;
                c << "add_header " << key << "=" << v << "\n";
                ++changes;
                break;
            }
            default: {
                fs::path f = root / "bad.json";
                bool missing = s.flip();
                if (missing) fs::remove(f);
                else std::ofstream(f) << s.pick<std::string>({"{", "", "{\"SERVER\":", "nope"});
                bool threw = false;
                try {
                    b.from_file(f);
                } catch (const std::exception&) {
                    threw = true;
                }
                c.check(threw, missing ? "a missing configuration file was accepted" : "a malformed configuration file was accepted");
                c << "bad file\n";
            }
        }
        c.check(b.server == server, "server is '" + b.server + "', expected '" + server + "'");
        c.check(b.endpoint == endpoint, "endpoint is '" + b.endpoint + "', expected '" + endpoint + "'");
        c.check(std::map<std::string, std::string>(b.headers.begin(), b.headers.end()) == headers, "headers differ");
        bool threw = false;
        try {
            auto ctx = b.build(s.flip());
            c.check(ctx->get_remote_address() == server + "/" + endpoint, "remote address is " + ctx->get_remote_address());
            auto h = ctx->get_auth_headers();
            c.check(std::map<std::string, std::string>(h.begin(), h.end()) == headers, "context headers differ");
        } catch (const std::runtime_error&) {
            threw = true;
        }
        c.check(threw == server.empty(), server.empty() ? "built without a server" : "a complete configuration was refused");
    }
    // the automatic chain: defaults < configuration file < header override
    {
        for (auto v : VARS) unsetenv(v);
        nlohmann::json j = nlohmann::json::object();
        std::string es = "http://localhost:8080/docc", ee = "transfertune";
        std::map<std::string, std::string> eh;
        if (s.flip()) {
            if (s.flip()) j["SERVER"] = es = "http://" + word(s);
            if (s.flip()) j["ENDPOINT"] = ee = word(s);
            if (s.flip()) j["HEADERS"] = {{"X-A", "file"}}, eh["X-A"] = "file";
            fs::path f = root / "auto.json";
            std::ofstream(f) << j.dump();
            setenv("SDFG_RPC_CONFIG", f.c_str(), 1);
        }
        if (s.flip()) {
            setenv("RPC_HEADER", "X-A:override", 1);
            eh["X-A"] = "override";
        }
        auto ctx = build_rpc_context_auto();
        auto h = ctx->get_auth_headers();
        c.check(ctx->get_remote_address() == es + "/" + ee, "automatic context targets " + ctx->get_remote_address());
        c.check(std::map<std::string, std::string>(h.begin(), h.end()) == eh, "automatic context headers");
        c.check(build_rpc_context_local()->get_remote_address() == "http://localhost:8080/docc/transfertune", "local context address");
    }
    if (changes) c.nontrivial(c.trace.str());
}
int main(int argc, char** argv) {
    Options o;
    o.id = AUTH ? "C13" : "C12";
    o.rule = AUTH ? "all combinations of credential sources (job token, access token, home file, session file; unset/empty/set, trailing "
                    "whitespace) and server override; non-trivial = distinct configuration"
                  : "random sequences of configuration steps (defaults, files with valid and ill-typed entries, environment, headers, bad "
                    "files) against a model; non-trivial = at least one configuring step, distinct by sequence";
    o.quick = AUTH ? 80000 : 60000;
    o.thorough = 1000000;
    return Runner(o, prop).main(argc, argv);
}
