// Drives file and container resources: reads, writes, seeks, copies, with the backing store observed after each call.
#include "common.hpp"
#include "oshook.hpp"
#include "shorts.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <sys/stat.h>

using Bytes = std::vector<unsigned char>;
static constexpr unsigned char Sentinel = 238;
static std::string scratch;

static Bytes slurp(const std::string& path) {
    Bytes b;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return b;
    unsigned char t[65536];
    long n;
    while ((n = syscall(SYS_read, fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n);
    syscall(SYS_close, fd);
    return b;
}
static void spit(const std::string& path, const Bytes& b) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) std::_Exit(3);
    std::size_t i = 0;
    while (i < b.size()) { long n = syscall(SYS_write, fd, b.data() + i, b.size() - i); if (n <= 0) std::_Exit(3); i += n; }
    syscall(SYS_close, fd);
}

struct Res {
    virtual ~Res() = default;
    virtual std::size_t read(std::byte*, std::size_t) { std::_Exit(3); }
    virtual std::size_t write(const std::byte*, std::size_t) { std::_Exit(3); }
    virtual void seek(std::int64_t, cmp::position_reference) = 0;
    virtual void fwd(std::int64_t) = 0;
    virtual void back(std::int64_t) = 0;
    virtual void flush() {}
    virtual std::int64_t pos() = 0;
    virtual bool end() = 0;
    virtual Bytes disk() = 0;
    virtual cmp::output_resource* out() { return nullptr; }
    virtual void drop() { std::_Exit(3); }
    virtual void copy_to(std::unique_ptr<Res>&) { std::_Exit(3); }
    virtual void move_to(std::unique_ptr<Res>&) { std::_Exit(3); }
    virtual void renew(bool, bool) { std::_Exit(3); }
    virtual void outside(const Bytes&) { std::_Exit(3); }   // somebody else replaces the content
};
template <typename C> C make_content(const Bytes& b) {
    using V = typename C::value_type;
    C c;
    c.resize(b.size() / sizeof(V));
    if (!b.empty()) std::memcpy((void*)std::data(c), b.data(), b.size());
    return c;
}
template <typename C> Bytes raw(const C& c) {
    using V = typename C::value_type;
    Bytes b(std::size(c) * sizeof(V));
    if (!b.empty()) std::memcpy(b.data(), (const void*)std::data(c), b.size());
    return b;
}
template <typename R> concept can_read = requires(R& r, std::byte* p) { r.read(p, std::size_t{}); };
template <typename R> concept can_write = requires(R& r, const std::byte* p) { r.write(p, std::size_t{}); };

template <typename R> struct Common : Res {
    virtual R& r() = 0;
    std::size_t read(std::byte* p, std::size_t n) override { if constexpr (can_read<R>) return r().read(p, n); else std::_Exit(3); }
    std::size_t write(const std::byte* p, std::size_t n) override { if constexpr (can_write<R>) return r().write(p, n); else std::_Exit(3); }
    void seek(std::int64_t n, cmp::position_reference f) override { r().set_position(n, f); }
    void fwd(std::int64_t n) override { r().go_forward(n); }
    void back(std::int64_t n) override { r().go_back(n); }
    void flush() override { if constexpr (can_write<R>) r().flush(); }
    std::int64_t pos() override { return r().get_position(); }
    bool end() override { return r().is_at_end(); }
    cmp::output_resource* out() override { if constexpr (can_write<R>) return &r(); else return nullptr; }
};
// the content as the resource gives it out must be the one there is
template <typename R> Bytes through(R& r, const Bytes& b) {
    const R& c = r;
    Bytes x = raw(c.grab_content()), y = raw(r.grab_content());
    if (x == b && y == b) return b;
    x.push_back(1); x.insert(x.end(), y.begin(), y.end());
    return x;
}
// p becomes a copy of what it was (or what it was is moved there), made by construction or by assignment to fresh
template <typename R> void replace(std::unique_ptr<R>& p, std::unique_ptr<R> fresh, bool mv, bool assign) {
    if (assign) { if (mv) *fresh = std::move(*p); else *fresh = *p; p = std::move(fresh); }
    else { std::unique_ptr<R> q(mv ? new R(std::move(*p)) : new R(static_cast<const R&>(*p))); p = std::move(q); }
}
// owning containers
template <typename R, typename C> struct Opaque : Common<R> {
    R res;
    Opaque(const Bytes& b, std::size_t cap, int how)
        : res(how == 0 ? R(make_content<C>(b), cap) : [&]() -> R { const C c = make_content<C>(b); return R(c, cap); }()) {}
    explicit Opaque(R&& q) : res(std::move(q)) {}
    explicit Opaque(const R& q) : res(q) {}
    R& r() override { return res; }
    Bytes disk() override { const R& c = res; return through(res, raw(c.grab_content())); }
    void outside(const Bytes& b) override {
        if constexpr (!std::is_const_v<std::remove_reference_t<decltype(res.grab_content())>>) res.grab_content() = make_content<C>(b);
        else std::_Exit(3);
    }
    void copy_to(std::unique_ptr<Res>& t) override {
        if (t) static_cast<Opaque&>(*t).res = res;
        else t = std::make_unique<Opaque>(static_cast<const R&>(res));
    }
    void move_to(std::unique_ptr<Res>& t) override {
        if (t) static_cast<Opaque&>(*t).res = std::move(res);
        else t = std::make_unique<Opaque>(std::move(res));
    }
};
// containers of the caller
template <typename R, typename C> struct Transparent : Common<R> {
    C c;
    std::unique_ptr<R> res;
    Transparent(const Bytes& b, std::size_t cap, int) : c(make_content<C>(b)), res(new R(c, cap)) {}
    R& r() override { return *res; }
    Bytes disk() override { return through(*res, raw(c)); }
    void outside(const Bytes& b) override { c = make_content<C>(b); }
    C other;
    void renew(bool mv, bool assign) override { other = C(); replace(res, std::make_unique<R>(other, 5), mv, assign); }
};
struct File : Common<cmp::file> {
    std::string path;
    std::unique_ptr<cmp::file> f;
    File(const Bytes& b, std::size_t cap, const std::string& mode, int n) {
        path = scratch + "/f" + std::to_string(n);
        spit(path, b);
        f.reset(new cmp::file(path, mode == "r" ? cmp::read_only : mode == "w" ? cmp::write_only : cmp::read_and_write, cmp::if_not_there::fail, cap));
    }
    void drop() override { f.reset(); }
    void outside(const Bytes& b) override { spit(path, b); }
    ~File() override { f.reset(); ::unlink(path.c_str()); }
    cmp::file& r() override { return *f; }
    Bytes disk() override { return slurp(path); }
};
// a resource of the user's own, derived from the library's base classes, whose k-th transfer moves at most plan[k] bytes
template <typename Base, bool In, bool Out> struct Own : Base {
    Bytes store;
    std::int64_t at = 0;
    Own(const Bytes& b, std::size_t cap) : cmp::transfer_resource(cap), Base(cap), store(b) {}
    std::int64_t get_position() const noexcept override {
        auto& m = cmp::transfer_resource::m_buffer;
        if (In && !m.is_read_dirty()) return at - (std::int64_t)(m.get_size() - m.get_position());
        return at + (std::int64_t)m.get_position();
    }
    bool is_at_end() const noexcept { return get_position() >= (std::int64_t)store.size(); }
protected:
    void set_position_raw(std::int64_t n, cmp::position_reference f) noexcept override {
        at = f == cmp::position_reference::begin ? n : f == cmp::position_reference::current ? at + n : (std::int64_t)store.size() + n;
        if (at < 0) at = 0;
    }
    std::size_t get(std::byte* p, std::size_t n) {
        std::size_t have = at < (std::int64_t)store.size() ? store.size() - (std::size_t)at : 0;
        if (n > have) n = have;
        n = shorts.limit(n);
        if (n) std::memcpy(p, store.data() + at, n);
        at += n;
        return n;
    }
    std::size_t put(const std::byte* p, std::size_t n) {
        n = shorts.limit(n);
        if (!n) return 0;
        if (store.size() < (std::size_t)at + n) store.resize((std::size_t)at + n);
        std::memcpy(store.data() + at, p, n);
        at += n;
        return n;
    }
};
struct OwnR : Own<cmp::seekable_input_resource<std::int64_t>, true, false> {
    OwnR(const Bytes& b, std::size_t c) : cmp::transfer_resource(c), Own(b, c) {}
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return get(p, n); }
};
struct OwnW : Own<cmp::seekable_output_resource<std::int64_t>, false, true> {
    OwnW(const Bytes& b, std::size_t c) : cmp::transfer_resource(c), Own(b, c) {}
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return put(p, n); }
};
struct OwnRW : Own<cmp::seekable_io_resource<std::int64_t>, true, true> {
    OwnRW(const Bytes& b, std::size_t c) : cmp::transfer_resource(c), cmp::seekable_input_resource<std::int64_t>(c), cmp::seekable_output_resource<std::int64_t>(c), Own(b, c) {}
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return get(p, n); }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return put(p, n); }
};
template <typename R> struct Mine : Common<R> {
    std::unique_ptr<R> res;
    Mine(const Bytes& b, std::size_t cap) : res(new R(b, cap)) {}
    R& r() override { return *res; }
    Bytes disk() override { return res->store; }
    void renew(bool mv, bool assign) override { replace(res, std::make_unique<R>(Bytes{}, 5), mv, assign); }
};
template <typename C> std::unique_ptr<Res> make_ctr(bool opaque, const std::string& mode, const Bytes& b, std::size_t cap, int how) {
    using namespace cmp;
    if (opaque) {
        if (mode == "r") return std::make_unique<Opaque<opaque_container_input_resource<C>, C>>(b, cap, how);
        if (mode == "w") return std::make_unique<Opaque<opaque_container_output_resource<C>, C>>(b, cap, how);
        return std::make_unique<Opaque<opaque_container_io_resource<C>, C>>(b, cap, how);
    }
    if (mode == "r") return std::make_unique<Transparent<transparent_container_input_resource<C>, C>>(b, cap, how);
    if (mode == "w") return std::make_unique<Transparent<transparent_container_output_resource<C>, C>>(b, cap, how);
    return std::make_unique<Transparent<transparent_container_io_resource<C>, C>>(b, cap, how);
}
static int counter = 0;
static std::unique_ptr<Res> make(const std::string& kind, const std::string& ct, const std::string& mode, const Bytes& b, std::size_t cap, int how) {
    if (kind == "file") return std::make_unique<File>(b, cap, mode, ++counter);
    if (kind == "own") {
        if (mode == "r") return std::make_unique<Mine<OwnR>>(b, cap);
        if (mode == "w") return std::make_unique<Mine<OwnW>>(b, cap);
        return std::make_unique<Mine<OwnRW>>(b, cap);
    }
    bool o = kind == "opaque";
    if (ct == "byte") return make_ctr<std::vector<std::byte>>(o, mode, b, cap, how);
    if (ct == "string") return make_ctr<std::string>(o, mode, b, cap, how);
    if (ct == "u16") return make_ctr<std::u16string>(o, mode, b, cap, how);
    if (ct == "u32") return make_ctr<std::vector<std::uint32_t>>(o, mode, b, cap, how);
    std::_Exit(3);
}
static int elem_of(const std::string& ct) { return ct == "u16" ? 2 : ct == "u32" ? 4 : 1; }

static void run(const J& s, W& w) {
    const std::string &kind = s["kind"].s, &ct = s["ctype"].s;
    std::unique_ptr<Res> obj[2];
    auto& h = hook();
    w.O().k("ev").A();
    for (auto& op : s["ops"].a) {
        const std::string& o = op["op"].s;
        int i = op.has("o") ? (int)op["o"].n - 1 : 0;
        int q = op.has("q") ? (int)op["q"].n : 1;
        std::vector<long> plan;
        if (op.has("f")) for (auto& x : op["f"].a) plan.push_back(x.n);
        Res* r = obj[i].get();
        w.O().k("op").s(o).k("o").i(i + 1);
        std::string x;
        if (kind == "own") shorts = Shorts{plan};
        else h.arm(plan);
        if (o == "new") {
            int e = elem_of(ct);
            Bytes b;
            if (op.has("content")) for (auto& v : op["content"].a) b.push_back((unsigned char)v.n);
            else for (int k = 1; k <= op["size"].n; ++k) b.push_back((unsigned char)(k % 251));
            while (b.size() % e) b.push_back(7);
            const std::string& mode = op["mode"].s;
            obj[i] = make(kind, ct, mode, b, (std::size_t)s["cap"].n, op.has("how") ? (int)op["how"].n : 0);
            r = obj[i].get();
            w.k("content").units(b).k("elem").i(e).k("cap").i(s["cap"].n).k("mode").s(mode);
        } else if (o == "read") {
            std::size_t n = (std::size_t)op["n"].n;
            std::unique_ptr<unsigned char[]> buf(new unsigned char[n + 5]);
            std::memset(buf.get(), Sentinel, n + 5);
            std::size_t got = 0;
            try { got = r->read((std::byte*)buf.get(), n); }
            catch (const cmp::invalid_access_mode&) { x = "invalid_access_mode"; }
            catch (...) { x = "unknown"; }
            h.on = false;
            w.k("n").i((long long)n).k("r").i((long long)got).k("buf").units(std::basic_string_view<unsigned char>(buf.get(), n + 5));
        } else if (o == "write") {
            Bytes b;
            for (auto& v : op["bs"].a) b.push_back((unsigned char)v.n);
            std::unique_ptr<unsigned char[]> buf(new unsigned char[b.size()]);
            std::copy(b.begin(), b.end(), buf.get());
            std::size_t put = 0;
            try { put = r->write((const std::byte*)buf.get(), b.size()); }
            catch (const cmp::invalid_access_mode&) { x = "invalid_access_mode"; }
            catch (...) { x = "unknown"; }
            h.on = false;
            w.k("bs").units(b).k("r").i((long long)put).k("kept").b(std::equal(b.begin(), b.end(), buf.get()));
        } else if (o == "seek") {
            const std::string& ref = op["ref"].s;
            r->seek(op["n"].n, ref == "begin" ? cmp::position_reference::begin : ref == "current" ? cmp::position_reference::current : cmp::position_reference::end);
            w.k("ref").s(ref).k("n").i(op["n"].n);
        } else if (o == "fwd") { r->fwd(op["n"].n); w.k("n").i(op["n"].n); }
        else if (o == "back") { r->back(op["n"].n); w.k("n").i(op["n"].n); }
        else if (o == "flush") r->flush();
        else if (o == "drop") { r->drop(); q = 0; }
        else if (o == "tieread") {
            cmp::opaque_container_input_resource<std::string> in(std::string("abc"), (std::size_t)op["n"].n);
            in.tie(*r->out());
            std::byte t[2];
            in.read(t, 2);
        } else if (o == "copy") {
            obj[1 - i]->copy_to(obj[i]);
            r = obj[i].get();
        } else if (o == "renew") {
            r->renew(op["mv"].n != 0, op["as"].n != 0);
        } else if (o == "outside") {
            Bytes b;
            for (auto& v : op["content"].a) b.push_back((unsigned char)v.n);
            while (b.size() % elem_of(ct)) b.push_back(9);
            r->outside(b);
            w.k("content").units(b);
        } else if (o == "copyself") {
            r->copy_to(obj[i]);
        } else if (o == "move") {
            obj[1 - i]->move_to(obj[i]);
            r = obj[i].get();
            obj[1 - i].reset();
        } else std::_Exit(3);
        h.on = false;
        shorts.plan.clear();
        w.k("x").s(x).k("err").b(h.err).k("cut").b(shorts.cut).k("f").A(); for (auto p : plan) w.i(p); w.a();
        w.k("q").i(q);
        w.k("pos").i(q ? r->pos() : -1).k("end").b(q ? r->end() : false);
        w.k("disk").A();
        for (auto& p : obj) w.units(p ? p->disk() : Bytes{});
        w.a().o();
        shorts = Shorts{};
    }
    h.arm({});
    obj[0].reset();
    obj[1].reset();
    h.on = false;
    w.a().o();
}
int main(int argc, char** argv) {
    const char* base = std::getenv("VP_SCRATCH");
    scratch = std::string(base ? base : "/tmp") + "/resXXXXXX";
    char* t = scratch.data();
    if (!mkdtemp(t)) return 3;
    int rc = script_loop(run);
    ::rmdir(t);
    return rc;
}
