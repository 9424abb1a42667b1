// Drives resources that cannot seek, derived by a user from input_resource, output_resource and io_resource.
#include "common.hpp"
#include "shorts.hpp"
#include <cmp/io/io_resource.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>

using Bytes = std::vector<unsigned char>;
static constexpr unsigned char Sentinel = 238;
struct Line {
    Bytes in, out;
    std::size_t at = 0;
    std::size_t get(std::byte* p, std::size_t n) {
        if (n > in.size() - at) n = in.size() - at;
        n = shorts.limit(n);
        if (n) std::memcpy(p, in.data() + at, n);
        at += n;
        return n;
    }
    std::size_t put(const std::byte* p, std::size_t n) {
        n = shorts.limit(n);
        out.insert(out.end(), (const unsigned char*)p, (const unsigned char*)p + n);
        return n;
    }
};
struct LineR : cmp::input_resource {
    Line* l;
    bool is_at_end() const noexcept override { return l->at >= l->in.size(); }
    LineR(Line* x, std::size_t c) : cmp::transfer_resource(c), cmp::input_resource(c), l(x) {}
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return l->get(p, n); }
};
struct LineW : cmp::output_resource {
    Line* l;
    bool is_at_end() const noexcept override { return l->at >= l->in.size(); }
    LineW(Line* x, std::size_t c) : cmp::transfer_resource(c), cmp::output_resource(c), l(x) {}
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return l->put(p, n); }
};
struct LineRW : cmp::io_resource {
    Line* l;
    bool is_at_end() const noexcept override { return l->at >= l->in.size(); }
    LineRW(Line* x, std::size_t c) : cmp::transfer_resource(c), cmp::io_resource(c), l(x) {}
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return l->get(p, n); }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return l->put(p, n); }
};
static void run(const J& s, W& w) {
    Line line;
    std::size_t cap = (std::size_t)s["cap"].n;
    const std::string& mode = s["mode"].s;
    std::unique_ptr<LineR> r;
    std::unique_ptr<LineW> ww;
    std::unique_ptr<LineRW> rw;
    cmp::input_resource* in = nullptr;
    cmp::output_resource* out = nullptr;
    auto use = [&] {
        if (r) in = r.get();
        if (ww) out = ww.get();
        if (rw) { in = rw.get(); out = rw.get(); }
    };
    w.O().k("ev").A();
    for (auto& op : s["ops"].a) {
        const std::string& o = op["op"].s;
        w.O().k("op").s(o);
        shorts = Shorts{};
        if (op.has("f")) for (auto& x : op["f"].a) shorts.plan.push_back(x.n);
        if (o == "new") {
            for (int k = 1; k <= op["size"].n; ++k) line.in.push_back((unsigned char)(k % 251));
            if (mode == "r") r.reset(new LineR(&line, cap));
            else if (mode == "w") ww.reset(new LineW(&line, cap));
            else rw.reset(new LineRW(&line, cap));
            use();
            w.k("content").units(line.in).k("cap").i((long long)cap);
        } else if (o == "read") {
            std::size_t n = (std::size_t)op["n"].n;
            std::unique_ptr<unsigned char[]> buf(new unsigned char[n + 5]);
            std::memset(buf.get(), Sentinel, n + 5);
            std::size_t got = in->read((std::byte*)buf.get(), n);
            w.k("n").i((long long)n).k("r").i((long long)got).k("buf").units(std::basic_string_view<unsigned char>(buf.get(), n + 5));
        } else if (o == "write") {
            Bytes b;
            for (auto& v : op["bs"].a) b.push_back((unsigned char)v.n);
            std::unique_ptr<unsigned char[]> buf(new unsigned char[b.size()]);
            std::copy(b.begin(), b.end(), buf.get());
            std::size_t put = out->write((const std::byte*)buf.get(), b.size());
            w.k("bs").units(b).k("r").i((long long)put).k("kept").b(std::equal(b.begin(), b.end(), buf.get()));
        } else if (o == "flush") out->flush();
        else if (o == "tieread") {
            cmp::opaque_container_input_resource<std::string> other(std::string("abc"), 2);
            other.tie(*out);
            std::byte t[2];
            other.read(t, 2);
        } else if (o == "copy" || o == "move") {
            // the history goes on with the copy, made by construction or assignment
            bool assign = op["as"].n != 0, mv = o == "move";
            auto next = [&](auto& p, auto fresh) {
                if (assign) { if (mv) *fresh = std::move(*p); else *fresh = *p; p = std::move(fresh); }
                else { using T = std::decay_t<decltype(*p)>; std::unique_ptr<T> q(mv ? new T(std::move(*p)) : new T(*p)); p = std::move(q); }
            };
            if (r) next(r, std::make_unique<LineR>(&line, 3));
            if (ww) next(ww, std::make_unique<LineW>(&line, 3));
            if (rw) next(rw, std::make_unique<LineRW>(&line, 3));
            use();
        } else std::_Exit(3);
        w.k("cut").b(shorts.cut).k("out").units(line.out).o();
        shorts = Shorts{};
    }
    w.a().o();
}
int main(int, char**) { return script_loop(run); }
