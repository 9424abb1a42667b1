// Drives the life of file objects: opening, reopening, moving, closing, destroying several of them.
#include "common.hpp"
#include "oshook.hpp"
#include <cmp/io/file.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <new>

using Bytes = std::vector<unsigned char>;
static constexpr unsigned char Sentinel = 238;
static constexpr int NO = 3, NP = 4;
static std::string scratch;
static std::string path_of(int p) { return scratch + (p == 4 ? "/nodir/x" : "/p" + std::to_string(p)); }
static Bytes slurp(const std::string& path) {
    Bytes b;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return b;
    unsigned char t[4096];
    long n;
    while ((n = syscall(SYS_read, fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n);
    syscall(SYS_close, fd);
    return b;
}
static void spit(const std::string& path, const Bytes& b) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) std::_Exit(3);
    if (!b.empty() && syscall(SYS_write, fd, b.data(), b.size()) != (long)b.size()) std::_Exit(3);
    syscall(SYS_close, fd);
}
static bool there(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
static cmp::access_mode mode_of(const std::string& m) { return m == "r" ? cmp::read_only : m == "w" ? cmp::write_only : cmp::read_and_write; }
static std::map<std::string, int> links() {
    std::map<std::string, int> m;
    DIR* d = opendir("/proc/self/fd");
    while (auto* e = readdir(d)) {
        char t[4096];
        std::string l = std::string("/proc/self/fd/") + e->d_name;
        ssize_t n = readlink(l.c_str(), t, sizeof t);
        if (n > 0) ++m[std::string(t, n)];
    }
    closedir(d);
    return m;
}
static void run(const J& s, W& w) {
    auto& h = hook();
    for (int fd : h.fds) syscall(SYS_close, fd);
    h.fds.clear();
    h.bad_close = 0;
    for (int p = 1; p <= NP; ++p) ::unlink(path_of(p).c_str());
    for (int p = 1; p <= 2; ++p) {
        Bytes b;
        for (int i = 1; i <= 11 - 4 * p; ++i) b.push_back((unsigned char)(10 * p + i));
        spit(path_of(p), b);
    }
    auto files = [&] {
        w.k("disk").A();
        for (int p = 1; p <= NP; ++p) w.units(slurp(path_of(p)));
        w.a().k("there").A();
        for (int p = 1; p <= NP; ++p) w.b(there(path_of(p)));
        w.a();
    };
    w.O();
    files();
    std::unique_ptr<cmp::file> obj[NO];
    w.k("ev").A();
    for (auto& e : s["ops"].a) {
        const std::string& o = e["op"].s;
        int i = (int)e["o"].n - 1;
        auto& f = obj[i];
        std::string x;
        h.arm({});
        h.open_fails = e.has("fault") && e["fault"].n;
        w.O().k("op").s(o).k("o").i(i + 1);
        auto args = [&] {
            w.k("path").i(e["path"].n).k("mode").s(e["mode"].s).k("create").b(e["create"].n != 0).k("fault").b(e["fault"].n != 0);
        };
        auto create = [&] { return e["create"].n ? cmp::if_not_there::create : cmp::if_not_there::fail; };
        try {
            if (o == "make") { f.reset(new cmp::file()); w.k("cap").i(1024); }
            else if (o == "makeopen") {
                args();
                w.k("cap").i(e["cap"].n);
                f.reset(new cmp::file(path_of((int)e["path"].n), mode_of(e["mode"].s), create(), (std::size_t)e["cap"].n));
            } else if (o == "open") {
                args();
                bool r = f->open(path_of((int)e["path"].n), mode_of(e["mode"].s), create());
                w.k("r").i(r);
            } else if (o == "close") f->close();
            else if (o == "drop") f.reset();
            else if (o == "mvctor") { w.k("from").i(e["from"].n); f.reset(new cmp::file(std::move(*obj[e["from"].n - 1]))); }
            else if (o == "mvassign") { w.k("from").i(e["from"].n); *f = std::move(*obj[e["from"].n - 1]); }
            else if (o == "read") {
                std::size_t n = (std::size_t)e["n"].n;
                std::unique_ptr<unsigned char[]> buf(new unsigned char[n + 5]);
                std::memset(buf.get(), Sentinel, n + 5);
                std::size_t got = 0;
                try { got = f->read((std::byte*)buf.get(), n); } catch (const cmp::invalid_access_mode&) { x = "invalid_access_mode"; }
                w.k("n").i((long long)n).k("r").i((long long)got).k("buf").units(std::basic_string_view<unsigned char>(buf.get(), n + 5));
            } else if (o == "write") {
                Bytes b;
                for (auto& v : e["bs"].a) b.push_back((unsigned char)v.n);
                std::size_t put = 0;
                w.k("bs").units(b);
                try { put = f->write((const std::byte*)b.data(), b.size()); } catch (const cmp::invalid_access_mode&) { x = "invalid_access_mode"; }
                w.k("r").i((long long)put);
            } else if (o == "seek") {
                w.k("ref").s(e["ref"].s).k("n").i(e["n"].n);
                f->set_position(e["n"].n, e["ref"].s == "begin" ? cmp::position_reference::begin : cmp::position_reference::end);
            } else if (o == "flush") f->flush();
            else std::_Exit(3);
        } catch (...) { x = "unknown"; }
        h.on = false;
        w.k("x").s(x).k("nfds").i((long long)h.fds.size()).k("badclose").i(h.bad_close);
        auto m = links();
        w.k("fds").A();
        for (int p = 1; p <= NP; ++p) w.i(m[path_of(p)]);
        w.a().k("obj").A();
        for (auto& q : obj) {
            bool op = q && q->is_open();
            w.O().k("open").s(!q ? "none" : op ? "open" : "closed");
            w.k("mode").s(!op ? "" : q->get_access_mode() == cmp::read_only ? "r" : q->get_access_mode() == cmp::write_only ? "w" : "rw");
            w.k("pos").i(op ? q->get_position() : -1).o();
        }
        w.a();
        files();
        w.o();
    }
    h.arm({});
    for (auto& q : obj) q.reset();
    h.on = false;
    w.a().o();
}
int main() {
    const char* base = std::getenv("VP_SCRATCH");
    scratch = std::string(base ? base : "/tmp") + "/fileXXXXXX";
    if (!mkdtemp(scratch.data())) return 3;
    char t[4096];
    if (realpath(scratch.c_str(), t)) scratch = t;
    int rc = script_loop(run);
    for (int p = 1; p <= NP; ++p) ::unlink(path_of(p).c_str());
    ::rmdir(scratch.c_str());
    return rc;
}
