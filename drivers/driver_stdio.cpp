// Drives uin, uout and uerr: every script is a program of its own (a forked child that ends through exit), whose
// reads and writes on descriptors 0, 1 and 2 are served by stand-ins and logged in order with the calls made.
#include "common.hpp"
#include <cerrno>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <cmp/io/uio.hpp>
#include <cmp/io/exceptions.hpp>

struct Log { unsigned long n; char t[8 * 1024 * 1024]; };
static Log* lg;
static bool child = false;
static bool full = false;
static void put_log(const std::string& s) {
    if (lg->n + s.size() + 2 > sizeof lg->t) { full = true; _exit(97); }
    if (lg->n) lg->t[lg->n++] = ',';
    std::memcpy(lg->t + lg->n, s.data(), s.size());
    lg->n += s.size();
}
static long wplan[64]; static unsigned wn = 0, wi = 0;
static long rplan[256]; static unsigned rn = 0, ri = 0;
static unsigned char* input; static unsigned long in_n = 0, in_at = 0;

extern "C" {
ssize_t read(int fd, void* p, size_t n) {
    if (!child || fd != 0) return syscall(SYS_read, fd, p, n);
    long k = ri < rn ? rplan[ri++] : 0;
    W w; w.O().k("op").s("sr");
    if (k < 0) { put_log(w.k("n").i(k).o().t); errno = k == -4 ? EINTR : EIO; return -1; }
    unsigned long m = in_n - in_at;
    if (m > n) m = n;
    if (k > 0 && (unsigned long)k < m) m = (unsigned long)k;
    std::memcpy(p, input + in_at, m);
    in_at += m;
    put_log(w.k("n").i((long long)m).o().t);
    return (ssize_t)m;
}
ssize_t write(int fd, const void* p, size_t n) {
    if (!child || (fd != 1 && fd != 2)) return syscall(SYS_write, fd, p, n);
    long k = wi < wn ? wplan[wi++] : 0;
    if (k < 0) {
        put_log(W().O().k("op").s("swx").k("s").s(fd == 1 ? "out" : "err").k("n").i(k).o().t);
        errno = k == -4 ? EINTR : EIO;
        return -1;
    }
    if (k > 0 && (size_t)k < n) n = (size_t)k;
    W w; w.O().k("op").s("sw").k("s").s(fd == 1 ? "out" : "err").k("b").units(std::basic_string_view<unsigned char>((const unsigned char*)p, n)).o();
    put_log(w.t);
    return (ssize_t)n;
}
// vectored calls may always come back short: one piece is one call
ssize_t readv(int fd, const struct iovec* v, int n) {
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
}

template <typename F> std::string guarded(F f) {
    try { f(); return ""; }
    catch (const cmp::read_past_end&) { return "read_past_end"; }
    catch (const cmp::invalid_unicode_encoding&) { return "invalid_unicode_encoding"; }
    catch (const cmp::invalid_code_point&) { return "invalid_code_point"; }
    catch (...) { return "unknown"; }
}
template <typename C> void put_text(cmp::stdout_stream& s, const J& e) {
    std::size_t n = e["in"].size();
    std::unique_ptr<C[]> p(new C[n + 1]);
    for (std::size_t i = 0; i < n; ++i) p[i] = (C)e["in"][i].n;
    p[n] = 0;
    switch (e["how"].n) {
    case 0: s << std::basic_string<C>(p.get(), n); break;
    case 1: s << std::basic_string_view<C>(p.get(), n); break;
    default: s << (const C*)p.get();
    }
}
template <typename C, typename G> void got(W& w, G g) {
    std::basic_string<C> t;
    std::string x = guarded([&] { g(t); });
    w.k("x").s(x).k("out");
    if (x.empty()) w.units(t); else w.A().a();
}
template <typename G> void by_type(const std::string& t, W& w, G g) {
    if (t == "u8") got<char8_t>(w, g);
    else if (t == "u16") got<char16_t>(w, g);
    else if (t == "u32") got<char32_t>(w, g);
    else if (t == "w") got<wchar_t>(w, g);
    else std::_Exit(3);
}
static std::vector<std::byte> raw_bytes(const J& a) {
    std::vector<std::byte> d;
    for (auto& v : a.a) d.push_back((std::byte)v.n);
    d.shrink_to_fit();
    return d;
}
static void begins(const char* op, const std::string& s, const J* in) {
    W b; b.O().k("op").s(op).k("s").s(s);
    if (in) { b.k("in").A(); for (auto& x : in->a) b.i(x.n); b.a(); }
    put_log(b.o().t);
}
static void returns(const char* op, const std::string& s, const std::string& x, long long n) {
    put_log(W().O().k("op").s("ret").k("of").s(op).k("s").s(s).k("x").s(x).k("n").i(n).o().t);
}
// a resource (and perhaps a stream) of the program's own on the descriptor of uout or uerr: bytes in pieces, then its
// end, which is a flush
static void own(const J& e) {
    const std::string& s = e["s"].s;
    cmp::stdout_resource& shared = s == "err" ? cmp::uerr_resource : cmp::uout_resource;
    begins("flush", s, nullptr);
    std::string x = guarded([&] { shared.flush(); });
    returns("flush", s, x, 0);
    {
        cmp::stdout_resource r{s == "err" ? 2 : 1, (std::size_t)e["cap"].n};
        std::unique_ptr<cmp::stdout_stream> t;
        if (e.has("st")) t.reset(new cmp::stdout_stream{r});
        for (auto& a : e["in"].a) {
            begins("raw", s, &a);
            long long n = 0;
            x = guarded([&] { auto d = raw_bytes(a); n = (long long)(t ? t->write(d.data(), d.size()) : r.write(d.data(), d.size())); });
            returns("raw", s, x, n);
        }
        begins("flush", s, nullptr);
        if (e.has("st") && e["st"].n == 2) { t.reset(); returns("flush", s, "", 0); begins("flush", s, nullptr); }
    }
    returns("flush", s, "", 0);
}
static J late_ops;
static bool has_late = false;
static void step(const J& e);
static void at_exit() { if (has_late) for (auto& e : late_ops.a) step(e); }
static void step(const J& e) {
    const std::string& op = e["op"].s;
    if (op == "own") { own(e); return; }
    if (op == "text" || op == "cp" || op == "raw" || op == "bool" || op == "int" || op == "flush") {
        bool err = e["s"].s == "err";
        cmp::stdout_stream& s = err ? cmp::uerr : cmp::uout;
        cmp::stdout_resource& r = err ? cmp::uerr_resource : cmp::uout_resource;
        W b; b.O().k("op").s(op).k("s").s(e["s"].s);
        if (op == "text" || op == "raw") { b.k("in").A(); for (auto& x : e["in"].a) b.i(x.n); b.a(); }
        if (op == "text") b.k("src").s(e["src"].s);
        if (op == "cp" || op == "bool" || op == "int") b.k("c").i(e["c"].n);
        put_log(b.o().t);
        long long n = 0;
        std::string x = guarded([&] {
            if (op == "text") {
                const std::string& t = e["src"].s;
                if (t == "u8") put_text<char8_t>(s, e);
                else if (t == "u16") put_text<char16_t>(s, e);
                else if (t == "u32") put_text<char32_t>(s, e);
                else if (t == "w") put_text<wchar_t>(s, e);
                else put_text<char>(s, e);
            } else if (op == "cp") s << (char32_t)(std::uint32_t)e["c"].n;
            else if (op == "bool") s << (e["c"].n != 0);
            else if (op == "int") s << (int)e["c"].n;
            else if (op == "flush") { if (e.has("r")) r.flush(); else if (e.has("m")) s << cmp::flush; else s.flush(); }
            else {
                std::vector<std::byte> d;
                for (auto& v : e["in"].a) d.push_back((std::byte)v.n);
                d.shrink_to_fit();
                n = (long long)r.write(d.data(), d.size());
            }
        });
        put_log(W().O().k("op").s("ret").k("of").s(op).k("s").s(e["s"].s).k("x").s(x).k("n").i(n).o().t);
    } else if (op == "get") {
        const std::string& k = e["k"].s;
        W w; w.O().k("op").s("get").k("k").s(k);
        put_log(W().O().k("op").s("ask").o().t);
        if (k == "cp") {
            char32_t c = 0;
            std::string x = guarded([&] { cmp::uin >> c; });
            w.k("x").s(x).k("out").A(); if (x.empty()) w.i((std::int32_t)c); w.a();
        } else if (k == "raw") {
            std::size_t n = (std::size_t)e["n"].n;
            std::unique_ptr<std::byte[]> p(new std::byte[n]);
            std::size_t m = 0;
            std::string x = guarded([&] { m = e.has("st") ? cmp::uin.read(p.get(), n) : cmp::uin_resource.read(p.get(), n); });
            if (m > n) std::abort();
            w.k("n").i((long long)n).k("x").s(x).k("out").units(std::basic_string_view<unsigned char>((unsigned char*)p.get(), m));
        } else if (k == "word") { w.k("t").s(e["t"].s); by_type(e["t"].s, w, [](auto& t) { cmp::uin >> t; }); }
        else if (k == "line") { w.k("t").s(e["t"].s); by_type(e["t"].s, w, [](auto& t) { cmp::uin.read_line(t); }); }
        else std::_Exit(3);
        put_log(w.o().t);
    } else if (op == "tie") {
        if (e["s"].s == "err") cmp::uin_resource.tie(cmp::uerr_resource); else cmp::uin_resource.tie(cmp::uout_resource);
        put_log(W().O().k("op").s("tie").k("s").s(e["s"].s).o().t);
    } else std::_Exit(3);
}
static void run(const J& j, W& w) {
    lg->n = 0;
    pid_t p = fork();
    if (p == 0) {
        in_n = j["input"].size();
        input = new unsigned char[in_n + 1];
        for (std::size_t i = 0; i < in_n; ++i) input[i] = (unsigned char)j["input"][i].n;
        for (auto& x : j["arrive"].a) if (rn < 256) rplan[rn++] = x.n;
        for (auto& x : j["leave"].a) if (wn < 64) wplan[wn++] = x.n;
        child = true;
        alarm(6);
        if (j.has("late")) { late_ops = j["late"]; has_late = true; std::atexit(at_exit); }
        for (auto& e : j["ops"].a) step(e);
        put_log("{\"op\":\"exit\"}");
        std::exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) std::_Exit(3);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        w.O().k("input").A(); for (auto& x : j["input"].a) w.i(x.n); w.a();
        w.raw(",\"ev\":[").raw(std::string_view(lg->t, lg->n)).raw("]}");
    } else
        w.O().k("crash").s("child " + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)))).k("ev").A().a().o();
}
int main() {
    lg = (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return script_loop(run);
}
