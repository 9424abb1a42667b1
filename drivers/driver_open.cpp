// Opens whatever a path can lead to, in a directory of its own, as an unprivileged user where that is possible.
#include "common.hpp"
#include <cmp/io/file.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/fsuid.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
namespace fs = std::filesystem;
using Bytes = std::vector<unsigned char>;
static std::string scratch;
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void spit(const std::string& p, const std::string& s, mode_t m = 0666) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size()) std::_Exit(3);
    fchmod(fd, m);
    fchown(fd, 65534, 65534);
    ::close(fd);
}
static void as_user(bool u) { setfsgid(u ? 65534 : 0); setfsuid(u ? 65534 : 0); }
static void run(const J& s, W& w) {
    const std::string kind = s["kind"].s, mode = s["mode"].s, way = s["way"].s;
    bool create = s["create"].n != 0;
    std::size_t cap = (std::size_t)s["cap"].n;
    static int n = 0;
    std::string d = scratch + "/d" + std::to_string(++n);
    fs::create_directory(d);
    chmod(d.c_str(), 0777);
    std::string path = d + "/x", target = path;
    bool plain = true;
    if (kind == "regular") spit(path, "abcdef");
    else if (kind == "empty") spit(path, "");
    else if (kind == "symlink") { target = d + "/t"; spit(target, "abcdef"); fs::create_symlink(target, path); }
    else if (kind == "hardlink") { target = d + "/t"; spit(target, "abcdef"); fs::create_hard_link(target, path); }
    else if (kind == "relative") { spit(path, "abcdef"); if (chdir(d.c_str())) std::_Exit(3); path = "x"; target = d + "/x"; }
    else if (kind == "unicode") { path = target = d + "/\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80"; spit(path, "abcdef"); }
    else if (kind == "spaces") { path = target = d + "/ a b\t\n.txt "; spit(path, "abcdef"); }
    else if (kind == "dotted") { spit(path, "abcdef"); fs::create_directory(d + "/y"); chmod((d + "/y").c_str(), 0777); path = d + "/./y/..//x"; }
    else if (kind == "deep") { std::string q = d; for (int i = 0; i < 20; ++i) { q += "/" + std::string(60, char('a' + i)); fs::create_directory(q); chmod(q.c_str(), 0777); } path = target = q + "/x"; spit(path, "abcdef"); }
    else if (kind == "readonly") spit(path, "abcdef", 0444);
    else if (kind == "writeonly") spit(path, "abcdef", 0222);
    else if (kind == "noperm") spit(path, "abcdef", 0);
    else if (kind == "directory") { fs::create_directory(path); chmod(path.c_str(), 0777); plain = false; }
    else if (kind == "device") { path = target = "/dev/null"; plain = false; }
    else if (kind == "fifo") { mkfifo(path.c_str(), 0666); chmod(path.c_str(), 0666); plain = false; }
    else if (kind == "socket") {
        int k = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a{}; a.sun_family = AF_UNIX;
        if (chdir(d.c_str())) std::_Exit(3);
        std::strcpy(a.sun_path, "x");
        bind(k, (sockaddr*)&a, sizeof a);
        ::close(k);
        plain = false;
    } else if (kind == "dangling") { target = d + "/t"; fs::create_symlink(target, path); }
    else if (kind == "missing") {}
    else if (kind == "noparent") path = target = d + "/no/x";
    else if (kind == "fileparent") { spit(d + "/f", "abc"); path = target = d + "/f/x"; }
    else if (kind == "nothing") path = target = "";
    else if (kind == "toolong") path = target = d + "/" + std::string(300, 'x');
    else if (kind == "loop") { fs::create_symlink(path, d + "/l"); fs::create_symlink(d + "/l", path); }
    else std::_Exit(3);
    // the other ends of a pipe, so that opening it does not wait
    int fifo = kind == "fifo" ? ::open(path.c_str(), O_RDWR | O_NONBLOCK) : -1;
    auto bytes = [&](const std::string& p) {
        Bytes b;
        struct stat st;
        if (::stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) return b;
        int fd = ::open(p.c_str(), O_RDONLY);
        unsigned char t[64];
        ssize_t k = fd < 0 ? 0 : ::read(fd, t, 64);
        if (fd >= 0) ::close(fd);
        return Bytes(t, t + std::max<ssize_t>(k, 0));
    };
    auto there = [&] { struct stat st; return ::stat(path.c_str(), &st) == 0; };
    Bytes before = bytes(target);
    bool was = there();
    std::string other = d + "/other";
    if (way == "reopen") spit(other, "zzz");
    int start = fds();
    as_user(true);
    w.O().k("ev").A().O().k("kind").s(kind).k("mode").s(mode).k("create").b(create).k("way").s(way).k("plain").b(plain).k("there").b(was).k("before").units(before);
    w.k("poss").A();
    if (was) for (auto& [m, f] : std::vector<std::pair<std::string, int>>{{"r", O_RDONLY}, {"w", O_WRONLY}, {"rw", O_RDWR}}) {
        int fd = ::open(path.c_str(), f);
        if (fd >= 0) { w.s(m); ::close(fd); }
    }
    w.a();
    auto am = mode == "r" ? cmp::read_only : mode == "w" ? cmp::write_only : cmp::read_and_write;
    auto ca = create ? cmp::if_not_there::create : cmp::if_not_there::fail;
    std::string x, rx, wx;
    bool r = false, open = false;
    std::int64_t pos = -1;
    std::string gm;
    Bytes got;
    try {
        std::unique_ptr<cmp::file> f;
        if (way == "ctor") { f.reset(new cmp::file(path, am, ca, cap)); r = f->is_open(); }
        else if (way == "open") { f.reset(new cmp::file()); r = f->open(path, am, ca); }
        else { f.reset(new cmp::file(other, cmp::read_and_write, cmp::if_not_there::fail, cap)); std::byte t[2]; f->read(t, 2); r = f->open(path, am, ca); }
        open = f->is_open();
        if (open) {
            pos = f->get_position();
            auto m = f->get_access_mode();
            gm = m == cmp::read_only ? "r" : m == cmp::write_only ? "w" : "rw";
            if (kind == "device" || kind == "fifo" || kind == "directory") pos = 0;      // have no positions
            if (plain || !was) {
                unsigned char t[64];
                try { std::size_t k = f->read((std::byte*)t, 64); got.assign(t, t + k); } catch (const cmp::invalid_access_mode&) { rx = "invalid_access_mode"; }
                f->set_position(0, cmp::position_reference::begin);
                std::byte v[2]{std::byte{200}, std::byte{201}};
                try { f->write(v, 2); } catch (const cmp::invalid_access_mode&) { wx = "invalid_access_mode"; }
            }
        }
    } catch (...) { x = "unknown"; }
    as_user(false);
    w.k("x").s(x).k("r").b(r).k("open").b(open).k("pos").i(pos).k("gmode").s(gm).k("rx").s(rx).k("wx").s(wx).k("got").units(got);
    w.k("leak").i(fds() - start).k("after").units(bytes(target)).k("thereafter").b(there());
    w.o().a().o();
    if (fifo >= 0) ::close(fifo);
    if (chdir("/")) std::_Exit(3);
    fs::remove_all(d);
}
int main() {
    const char* base = std::getenv("VP_SCRATCH");
    scratch = std::string(base ? base : "/tmp") + "/openXXXXXX";
    if (!mkdtemp(scratch.data())) return 3;
    chmod(scratch.c_str(), 0777);
    int rc = script_loop(run);
    fs::remove_all(scratch);
    return rc;
}
