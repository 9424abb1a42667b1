// Very large resources: a file with holes, and containers over reserved but untouched memory.
#include "common.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static std::string scratch;
static std::int64_t B;
static constexpr std::size_t reserve = std::size_t{1} << 36;

// memory that exists only where it is touched; copies share it (histories use one object at a time)
struct Memory {
    unsigned char* p;
    Memory() : p((unsigned char*)mmap(nullptr, reserve, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) {
        if (p == MAP_FAILED) std::_Exit(3);
    }
    ~Memory() { munmap(p, reserve); }
};
struct Vast {
    using value_type = unsigned char;
    using size_type = std::size_t;
    using iterator = unsigned char*;
    using const_iterator = const unsigned char*;
    std::shared_ptr<Memory> m = std::make_shared<Memory>();
    std::size_t n = 0;
    std::size_t size() const { return n; }
    bool empty() const { return n == 0; }
    unsigned char* data() { return m->p; }
    const unsigned char* data() const { return m->p; }
    unsigned char* begin() { return m->p; }
    unsigned char* end() { return m->p + n; }
    const unsigned char* begin() const { return m->p; }
    const unsigned char* end() const { return m->p + n; }
    void resize(std::size_t k) { if (k > reserve) std::_Exit(4); n = k; }      // grows by zeros, as untouched memory is
    void reserve_(std::size_t) {}
};
static std::int64_t addr(const J& a) { return a[0].n * B + a[1].n; }
static void pair(W& w, std::int64_t p) {
    std::int64_t b = p >= 0 ? (p + B / 2) / B : -((-p + B / 2) / B);
    w.A().i(b).i(std::max<std::int64_t>(-1000000, std::min<std::int64_t>(1000000, p - b * B))).a();
}
struct Res {
    virtual ~Res() = default;
    virtual std::size_t read(std::byte*, std::size_t) { std::_Exit(3); }
    virtual std::size_t write(const std::byte*, std::size_t) { std::_Exit(3); }
    virtual void seek(std::int64_t, cmp::position_reference) = 0;
    virtual void fwd(std::int64_t) = 0;
    virtual void back(std::int64_t) = 0;
    virtual void flush() {}
    virtual std::int64_t pos() = 0;
    virtual bool end() = 0;
    virtual std::int64_t size() = 0;
    virtual std::vector<unsigned char> peek(std::int64_t, std::size_t) = 0;
    virtual void gone() {}
};
template <typename R> concept can_read = requires(R& r, std::byte* p) { r.read(p, std::size_t{}); };
template <typename R> concept can_write = requires(R& r, const std::byte* p) { r.write(p, std::size_t{}); };
template <typename R> struct Common : Res {
    virtual R& r() = 0;
    std::size_t read(std::byte* p, std::size_t n) override { if constexpr (can_read<R>) return r().read(p, n); else std::_Exit(3); }
    std::size_t write(const std::byte* p, std::size_t n) override { if constexpr (can_write<R>) return r().write(p, n); else std::_Exit(3); }
    void seek(std::int64_t n, cmp::position_reference f) override { r().set_position(n, f); }
    void fwd(std::int64_t n) override { r().go_forward(n); }
    void back(std::int64_t n) override { r().go_back(n); }
    void flush() override { if constexpr (can_write<R>) r().flush(); }
    std::int64_t pos() override { return r().get_position(); }
    bool end() override { return r().is_at_end(); }
};
static void fill(std::int64_t size, const J& s, const std::function<void(std::int64_t, unsigned char)>& put) {
    for (int i = 0; i < 4; ++i) put(i, (unsigned char)(1 + i));
    for (int i = 1; i <= 4; ++i) {
        long long n = s[1].n - i, m = ((n % 37) + 37) % 37;
        put(size - i, (unsigned char)(1 + s[0].n * 40 + m));
    }
}
template <typename R, bool opaque> struct Ctr : Common<R> {
    Vast c;
    std::unique_ptr<R> res;
    Ctr(const J& s, std::size_t cap) {
        c.resize((std::size_t)addr(s));
        fill(addr(s), s, [&](std::int64_t a, unsigned char v) { c.m->p[a] = v; });
        res.reset(new R(c, cap));
    }
    R& r() override { return *res; }
    const Vast& content() { if constexpr (opaque) { const R& q = *res; return q.grab_content(); } else return c; }
    std::int64_t size() override { return (std::int64_t)content().size(); }
    std::vector<unsigned char> peek(std::int64_t a, std::size_t n) override {
        std::vector<unsigned char> v;
        for (std::size_t i = 0; i < n && a + (std::int64_t)i < size(); ++i) v.push_back(content().data()[a + i]);
        return v;
    }
};
struct File : Common<cmp::file> {
    std::string path;
    int fd;
    std::unique_ptr<cmp::file> f;
    File(const J& s, std::size_t cap, const std::string& mode, const std::string& env) {
        path = scratch + "/far";
        fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, addr(s))) std::_Exit(3);
        fill(addr(s), s, [&](std::int64_t a, unsigned char v) { if (pwrite(fd, &v, 1, a) != 1) std::_Exit(3); });
        auto m = mode == "r" ? cmp::read_only : mode == "w" ? cmp::write_only : cmp::read_and_write;
        if (env == "chdir") {
            if (::chdir(scratch.c_str())) std::_Exit(3);
            f.reset(new cmp::file("far", m, cmp::if_not_there::fail, cap));
            if (::chdir("/")) std::_Exit(3);
        } else {
            f.reset(new cmp::file(path, m, cmp::if_not_there::fail, cap));
            if (env == "rename") ::rename(path.c_str(), (scratch + "/away").c_str());
            if (env == "unlink") ::unlink(path.c_str());
        }
    }
    ~File() override { f.reset(); ::close(fd); ::unlink(path.c_str()); ::unlink((scratch + "/away").c_str()); }
    cmp::file& r() override { return *f; }
    std::int64_t size() override { struct stat st; fstat(fd, &st); return st.st_size; }
    std::vector<unsigned char> peek(std::int64_t a, std::size_t n) override {
        std::vector<unsigned char> v(n);
        ssize_t k = pread(fd, v.data(), n, a);
        v.resize(k < 0 ? 0 : (std::size_t)k);
        return v;
    }
    void gone() override { f.reset(); }
};
static std::unique_ptr<Res> make(const std::string& kind, const J& size, const std::string& m, std::size_t cap, const std::string& env) {
    using namespace cmp;
    if (kind == "opaque") {
        if (m == "r") return std::make_unique<Ctr<opaque_container_input_resource<Vast>, true>>(size, cap);
        if (m == "w") return std::make_unique<Ctr<opaque_container_output_resource<Vast>, true>>(size, cap);
        return std::make_unique<Ctr<opaque_container_io_resource<Vast>, true>>(size, cap);
    }
    if (kind == "transparent") {
        if (m == "r") return std::make_unique<Ctr<transparent_container_input_resource<Vast>, false>>(size, cap);
        if (m == "w") return std::make_unique<Ctr<transparent_container_output_resource<Vast>, false>>(size, cap);
        return std::make_unique<Ctr<transparent_container_io_resource<Vast>, false>>(size, cap);
    }
    return std::make_unique<File>(size, cap, m, env);
}
static void run(const J& s, W& w) {
    B = s["B"].n;
    std::size_t cap = (std::size_t)s["cap"].n;
    std::unique_ptr<Res> r;
    bool file = s["kind"].s == "file";
    w.O().k("ev").A();
    for (auto& op : s["ops"].a) {
        const std::string& o = op["op"].s;
        int q = op.has("q") ? (int)op["q"].n : 1;
        bool look = false;
        w.O().k("op").s(o);
        if (o == "new") {
            r = make(s["kind"].s, op["size"], op["mode"].s, cap, s["env"].s);
            w.k("size0").i(0).k("mode").s(op["mode"].s);
            look = true;
        } else if (o == "read") {
            std::size_t n = (std::size_t)op["n"].n;
            std::unique_ptr<unsigned char[]> buf(new unsigned char[n + 5]);
            std::memset(buf.get(), 238, n + 5);
            std::size_t got = r->read((std::byte*)buf.get(), n);
            w.k("n").i((long long)n).k("r").i((long long)got).k("buf").units(std::basic_string_view<unsigned char>(buf.get(), n + 5));
        } else if (o == "write") {
            std::vector<unsigned char> b;
            for (auto& v : op["bs"].a) b.push_back((unsigned char)v.n);
            std::size_t put = r->write((const std::byte*)b.data(), b.size());
            w.k("bs").units(b).k("r").i((long long)put);
            look = cap == 0;
        } else if (o == "seek" || o == "fwd" || o == "back") {
            std::int64_t n = addr(op["n"]);
            if (o == "fwd") r->fwd(n);
            else if (o == "back") r->back(n);
            else { const std::string& ref = op["ref"].s; w.k("ref").s(ref);
                r->seek(n, ref == "begin" ? cmp::position_reference::begin : ref == "current" ? cmp::position_reference::current : cmp::position_reference::end); }
            w.k("n").A().i(op["n"][0].n).i(op["n"][1].n).a();
            look = true;
        } else if (o == "flush") { r->flush(); look = true; }
        else if (o == "gone") { if (!file) r->flush(); r->gone(); look = true; q = 0; }
        else std::_Exit(3);
        w.k("q").i(q).k("pos");
        if (q) pair(w, r->pos()); else w.A().i(0).i(0).a();
        w.k("end").b(q ? r->end() : false);
        w.k("size"); pair(w, r->size());
        w.k("win").A();
        if (look) for (int b = 0; b <= 2; ++b) {
            std::int64_t from = b == 0 ? 0 : b * B - 32;
            if (from > r->size()) continue;
            w.O().k("at").A().i(b).i(b ? -32 : 0).a().k("bs").units(r->peek(from, 64)).o();
        }
        w.a().o();
    }
    r.reset();
    w.a().o();
}
int main(int argc, char** argv) {
    const char* base = std::getenv("VP_SCRATCH");
    scratch = std::string(base ? base : "/tmp") + "/farXXXXXX";
    if (!mkdtemp(scratch.data())) return 3;
    int rc = script_loop(run);
    ::rmdir(scratch.c_str());
    return rc;
}
