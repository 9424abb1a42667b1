// Drives text output, text input and data streams over files and containers.
#include "common.hpp"
#include <bit>
#include <cmath>
#include <fcntl.h>
#include <sys/syscall.h>
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/data_io_stream.hpp>

using Bytes = std::vector<unsigned char>;
static std::string scratch;
static Bytes slurp(const std::string& path) {
    Bytes b;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return b;
    unsigned char t[4096];
    long n;
    while ((n = syscall(SYS_read, fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n);
    syscall(SYS_close, fd);
    return b;
}
static void spit(const std::string& path, const Bytes& b) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) std::_Exit(3);
    if (!b.empty() && syscall(SYS_write, fd, b.data(), b.size()) != (long)b.size()) std::_Exit(3);
    syscall(SYS_close, fd);
}
template <typename C> C as(const Bytes& b) { C c; for (auto x : b) c.push_back((typename C::value_type)x); return c; }
template <typename C> Bytes back(const C& c) { Bytes b; for (auto x : c) b.push_back((unsigned char)x); return b; }
static Bytes bytes_of(const J& j) { Bytes b; for (auto& x : j.a) b.push_back((unsigned char)x.n); return b; }

// resources
template <typename R, typename C> struct OpaqueRes {
    using type = R;
    R res;
    OpaqueRes(const Bytes& b, std::size_t cap) : res(as<C>(b), cap) {}
    R& r() { return res; }
    Bytes disk() { const R& c = res; return back(c.grab_content()); }
    void finish() {}
};
template <typename R, typename C> struct TransRes {
    using type = R;
    C c;
    std::unique_ptr<R> res;
    TransRes(const Bytes& b, std::size_t cap) : c(as<C>(b)), res(new R(c, cap)) {}
    R& r() { return *res; }
    Bytes disk() { return back(c); }
    void finish() {}
};
static int counter = 0;
struct FileRes {
    using type = cmp::file;
    std::string path;
    std::unique_ptr<cmp::file> f;
    FileRes(const Bytes& b, std::size_t cap) {
        path = scratch + "/s" + std::to_string(++counter);
        spit(path, b);
        f.reset(new cmp::file(path, cmp::read_and_write, cmp::if_not_there::fail, cap));
    }
    ~FileRes() { f.reset(); ::unlink(path.c_str()); }
    cmp::file& r() { return *f; }
    Bytes disk() { return slurp(path); }
    void finish() { f.reset(); }
};
using VB = std::vector<std::byte>;
using OIO = OpaqueRes<cmp::opaque_container_io_resource<VB>, VB>;
using TIO = TransRes<cmp::transparent_container_io_resource<std::string>, std::string>;
using OIN = OpaqueRes<cmp::opaque_container_input_resource<std::string>, std::string>;
using TIN = TransRes<cmp::transparent_container_input_resource<VB>, VB>;
using OOUT = OpaqueRes<cmp::opaque_container_output_resource<std::string>, std::string>;
using TOUT = TransRes<cmp::transparent_container_output_resource<VB>, VB>;

static cmp::encoding_form form_of(const std::string& s) { return s == "u8" ? cmp::utf8 : s == "u16" ? cmp::utf16 : cmp::utf32; }
static std::endian endian_of(const std::string& s) { return s == "big" ? std::endian::big : std::endian::little; }
static const char* name(cmp::encoding_form f) { return f == cmp::utf8 ? "u8" : f == cmp::utf16 ? "u16" : f == cmp::utf32 ? "u32" : "?"; }
static const char* name(std::endian e) { return e == std::endian::big ? "big" : e == std::endian::little ? "little" : "?"; }
static const char* type_name(cmp::parse_failed::type t) {
    using P = cmp::parse_failed::type;
    switch (t) {
    case P::empty_input: return "empty_input";
    case P::neither_boolean: return "neither_boolean";
    case P::multiple_signs: return "multiple_signs";
    case P::thousands_separator_missing: return "thousands_separator_missing";
    case P::digit_character_expected: return "digit_character_expected";
    case P::negative_unsigned: return "negative_unsigned";
    case P::wrong_place_limit: return "wrong_place_limit";
    case P::out_of_range: return "out_of_range";
    }
    return "unknown";
}
template <typename F> std::string guarded(F f) {
    try { f(); return ""; }
    catch (const cmp::parse_failed& e) { return type_name(e.get_type()); }
    catch (const cmp::read_past_end&) { return "read_past_end"; }
    catch (const cmp::invalid_unicode_encoding&) { return "invalid_unicode_encoding"; }
    catch (const cmp::iterated_past_end&) { return "iterated_past_end"; }
    catch (const cmp::invalid_code_point&) { return "invalid_code_point"; }
    catch (...) { return "unknown"; }
}
static void limbs(W& w, unsigned __int128 v) { w.A(); while (v) { w.i((long long)(v % 4096)); v /= 4096; } w.a(); }
static unsigned long long from_limbs(const J& j) {
    unsigned long long v = 0;
    for (std::size_t i = j.size(); i-- > 0;) v = v * 4096 + (unsigned long long)j[i].n;
    return v;
}
template <typename F> void with_int(const std::string& f, F g) {
    if (f == "sc") g((signed char)0);
    else if (f == "uc") g((unsigned char)0);
    else if (f == "s") g((short)0);
    else if (f == "us") g((unsigned short)0);
    else if (f == "i") g((int)0);
    else if (f == "u") g((unsigned)0);
    else if (f == "l") g((long)0);
    else if (f == "ul") g((unsigned long)0);
    else if (f == "ll") g((long long)0);
    else if (f == "ull") g((unsigned long long)0);
    else std::_Exit(3);
}
template <typename F> void with_flt(const std::string& f, F g) {
    if (f == "f") g((float)0);
    else if (f == "d") g((double)0);
    else if (f == "ld") g((long double)0);
    else std::_Exit(3);
}
// ------------------------------------------------------------------------------------------------ text output
template <typename C, typename S> std::string put_text(S& s, const J& e) {
    std::size_t n = e["in"].size();
    std::unique_ptr<C[]> p(new C[n + 1]);
    for (std::size_t i = 0; i < n; ++i) p[i] = (C)e["in"][i].n;
    p[n] = C(0);
    int how = (int)e["how"].n;
    if (how == 0) {   // a view on exactly the units
        std::unique_ptr<C[]> q(new C[n]);
        std::copy(p.get(), p.get() + n, q.get());
        std::basic_string_view<C> v(q.get(), n);
        return guarded([&] { s << v; });
    }
    if (how == 1) { std::basic_string<C> v(p.get(), n); return guarded([&] { s << v; }); }
    const C* z = p.get();
    return guarded([&] { s << z; });
}
template <typename Res, template <typename> class Stream> void text_out(const J& s, W& w) {
    using R = typename Res::type;
    Res res(Bytes{}, (std::size_t)s["cap"].n);
    std::unique_ptr<Stream<R>> st(s.has("dflt") ? new Stream<R>(res.r(), form_of(s["form"].s)) : new Stream<R>(res.r(), form_of(s["form"].s), endian_of(s["endian"].s)));
    std::unique_ptr<Stream<R>> spare;
    cmp::text_output_stream<R>* o = st.get();
    w.O().k("form").s(s["form"].s).k("endian").s(s.has("dflt") ? "big" : s["endian"].s).k("ev").A();
    for (auto& e : s["ops"].a) {
        const std::string& op = e["op"].s;
        int q = e.has("q") ? (int)e["q"].n : 0;
        std::string x;
        w.O().k("op").s(op);
        if (op == "form") { o->set_encoding_form(form_of(e["form"].s)); w.k("form").s(e["form"].s); }
        else if (op == "endian") { o->set_endianness(endian_of(e["endian"].s)); w.k("endian").s(e["endian"].s); }
        else if (op == "bom") x = guarded([&] { o->write_bom(); });
        else if (op == "raw") {
            Bytes b = bytes_of(e["v"]);
            std::unique_ptr<std::byte[]> m(new std::byte[b.size()]);
            std::copy(b.begin(), b.end(), (unsigned char*)m.get());
            std::size_t n = 0;
            x = guarded([&] { n = o->write(m.get(), b.size()); });
            w.k("v").units(b).k("n").i((long long)n);
        }
        else if (op == "copy") {         // the history goes on with a copy of the stream, or what it was moved to
            std::unique_ptr<Stream<R>> next(e["mv"].n ? new Stream<R>(std::move(*st)) : new Stream<R>(*st));
            if (!e["keep"].n) st.reset();
            else spare = std::move(st);
            st = std::move(next);
            o = st.get();
        }
        else if (op == "cp") {
            char32_t c = (char32_t)e["c"].n;
            if (e.has("char")) x = guarded([&] { *st << (char)c; });
            else x = guarded([&] { *st << c; });
            w.k("c").i((std::int32_t)c);
        } else if (op == "text") {
            const std::string& t = e["src"].s;
            if (t == "c") x = put_text<char>(*st, e);
            else if (t == "u8") x = put_text<char8_t>(*st, e);
            else if (t == "u16") x = put_text<char16_t>(*st, e);
            else if (t == "u32") x = put_text<char32_t>(*st, e);
            else if (t == "w") x = put_text<wchar_t>(*st, e);
            else std::_Exit(3);
            w.k("src").s(t).k("in").A(); for (auto& v : e["in"].a) w.i((std::int32_t)v.n); w.a();
        } else if (op == "bool") { bool b = e["v"].n != 0; x = guarded([&] { *st << b; }); w.k("v").b(b); }
        else if (op == "int") {
            q = 1;
            with_int(e["t"].s, [&](auto z) {
                using T = decltype(z);
                unsigned long long m = from_limbs(e["mag"]);
                T v = (T)(e["neg"].n ? 0 - m : m);
                x = guarded([&] { *st << v; });
                bool neg = v < 0;
                w.k("neg").b(neg).k("mag"); limbs(w, neg ? 0 - (unsigned long long)v : (unsigned long long)v);
            });
        } else if (op == "flt") {
            q = 1;
            with_flt(e["t"].s, [&](auto z) {
                using T = decltype(z);
                T v = (T)from_limbs(e["int"]) + std::ldexp((T)from_limbs(e["num"]), -(int)e["k"].n);
                if (e["neg"].n) v = -v;
                x = guarded([&] { *st << v; });
                w.k("neg").b(e["neg"].n != 0).k("int"); limbs(w, from_limbs(e["int"]));
                w.k("num"); limbs(w, from_limbs(e["num"])); w.k("k").i(e["k"].n);
            });
        } else if (op == "flush") { q = 1; if (e.has("fn")) o->flush(); else *st << cmp::flush; }
        else std::_Exit(3);
        if (q) o->flush();
        bool same = &o->grab_resource() == &res.r() && o->operator->() == &res.r() && st->operator->() == &res.r();
        w.k("same").b(same);
        w.k("x").s(x).k("q").i(q).k("gform").s(name(o->get_encoding_form())).k("gendian").s(name(o->get_endianness()));
        w.k("disk").units(q ? res.disk() : Bytes{}).o();
    }
    auto gf = o->get_encoding_form();
    auto ge = o->get_endianness();
    spare.reset();
    st.reset();                  // the stream flushes when it ends
    res.finish();
    w.O().k("op").s("end").k("same").b(true).k("x").s("").k("q").i(1).k("gform").s(name(gf)).k("gendian").s(name(ge)).k("disk").units(res.disk()).o();
    w.a().o();
}
// ------------------------------------------------------------------------------------------------- text input
template <typename T> void log_parts(W& w, T v) {
    bool neg = std::signbit(v);
    T a = std::fabs(v), ip = std::floor(a), fr = a - ip;
    T sc = std::ldexp(fr, 47), fl = std::floor(sc);
    w.k("neg").b(neg).k("int"); limbs(w, (unsigned __int128)ip);
    w.k("frac"); limbs(w, (unsigned __int128)fl);
    w.k("exact").b(fl == sc);
}
template <typename Res, template <typename> class Stream> void text_in(const J& s, W& w) {
    using R = typename Res::type;
    Bytes content = bytes_of(s["bytes"]);
    Res res(content, (std::size_t)s["cap"].n);
    std::unique_ptr<Stream<R>> st(s.has("dflt") ? new Stream<R>(res.r(), form_of(s["form"].s)) : new Stream<R>(res.r(), form_of(s["form"].s), endian_of(s["endian"].s)));
    std::unique_ptr<Stream<R>> spare;
    cmp::text_input_stream<R>* o = st.get();
    std::string tc; std::u8string t8; std::u16string t16; std::u32string t32; std::wstring tw;
    auto with = [&](const std::string& t, auto g) {
        if (t == "c") g(tc); else if (t == "u8") g(t8); else if (t == "u16") g(t16); else if (t == "u32") g(t32); else if (t == "w") g(tw); else std::_Exit(3);
    };
    w.O().k("form").s(s["form"].s).k("endian").s(s.has("dflt") ? "big" : s["endian"].s).k("bytes").units(content).k("ev").A();
    for (auto& e : s["ops"].a) {
        const std::string& op = e["op"].s;
        std::string x;
        bool ended = o->is_at_end();
        w.O().k("op").s(op);
        if (op == "form") { o->set_encoding_form(form_of(e["form"].s)); w.k("form").s(e["form"].s); }
        else if (op == "endian") { o->set_endianness(endian_of(e["endian"].s)); w.k("endian").s(e["endian"].s); }
        else if (op == "copy") {         // the history goes on with a copy of the stream, or what it was moved to
            std::unique_ptr<Stream<R>> next(e["mv"].n ? new Stream<R>(std::move(*st)) : new Stream<R>(*st));
            if (!e["keep"].n) st.reset();
            else spare = std::move(st);
            st = std::move(next);
            o = st.get();
        }
        else if (op == "grab") {
            std::size_t n = (std::size_t)e["n"].n, k = 0;
            std::unique_ptr<std::byte[]> m(new std::byte[n]);
            x = guarded([&] { k = o->read(m.get(), n); });
            w.k("n").i((long long)n).k("v").units(Bytes((unsigned char*)m.get(), (unsigned char*)m.get() + std::min(k, n)));
        }
        else if (op == "bom") { char32_t c = 0; x = guarded([&] { c = o->read_bom(); }); w.k("c").i((std::int32_t)c); }
        else if (op == "cp") { char32_t c = 0xABCDEF; x = guarded([&] { *st >> c; }); w.k("c").i((std::int32_t)c).k("kept").b(c == 0xABCDEF); }
        else if (op == "word" || op == "line" || op == "all" || op == "aline" || op == "aall")
            with(e["t"].s, [&](auto& t) {
                x = guarded([&] {
                    if (op == "word") *st >> t;
                    else if (op == "line") o->read_line(t);
                    else if (op == "all") o->read_all(t);
                    else if (op == "aline") o->append_line(t);
                    else o->append_all(t);
                });
                w.k("t").s(e["t"].s).k("out").units(t);
            });
        else if (op == "bool") { bool b = false; x = guarded([&] { *st >> b; }); w.k("v").b(b); }
        else if (op == "int") with_int(e["t"].s, [&](auto z) {
            using T = decltype(z);
            T v{};
            x = guarded([&] { *st >> v; });
            bool neg = v < 0;
            w.k("signed").b(std::is_signed_v<T>).k("bits").i(sizeof(T) * 8).k("neg").b(neg).k("mag");
            limbs(w, neg ? 0 - (unsigned long long)v : (unsigned long long)v);
        });
        else if (op == "flt") with_flt(e["t"].s, [&](auto z) {
            using T = decltype(z);
            T v{};
            x = guarded([&] { *st >> v; });
            w.k("slack").i(std::is_same_v<T, float> ? 29 : 0);
            log_parts(w, v);
        });
        else std::_Exit(3);
        bool same = &o->grab_resource() == &res.r() && o->operator->() == &res.r() && st->operator->() == &res.r();
        w.k("same").b(same);
        w.k("x").s(x).k("gform").s(name(o->get_encoding_form())).k("gendian").s(name(o->get_endianness()));
        w.k("pos").i(res.r().get_position()).k("end").b(o->is_at_end()).o();
        if ((x == "invalid_unicode_encoding" || x == "read_past_end") && !ended) break;
        if (x == "iterated_past_end" || x == "unknown" || x == "invalid_code_point") break;
    }
    w.a().o();
}
// ------------------------------------------------------------------------------------------------ data streams
template <typename F> void with_type(const std::string& t, F g) {
    if (t == "bool") g((bool)0); else if (t == "char") g((char)0); else if (t == "c8") g((char8_t)0); else if (t == "c16") g((char16_t)0);
    else if (t == "c32") g((char32_t)0); else if (t == "wc") g((wchar_t)0);
    else if (t == "f" || t == "d" || t == "ld") with_flt(t, g);
    else with_int(t, g);
}
template <typename T> Bytes rep(const T& v) { Bytes b(sizeof(T)); std::memcpy(b.data(), (const void*)&v, sizeof(T)); return b; }
template <typename Res> void data(const J& s, W& w) {
    using R = typename Res::type;
    Bytes content = bytes_of(s["content"]);
    Res res(content, (std::size_t)s["cap"].n);
    bool dflt = s.has("dflt");
    const char* native = name(std::endian::native);
    std::unique_ptr<cmp::data_io_stream<R>> io;
    std::unique_ptr<cmp::data_input_stream<R>> in;
    std::unique_ptr<cmp::data_output_stream<R>> out;
    cmp::data_input_stream<R>* i;
    cmp::data_output_stream<R>* o;
    if (s["io"].n) {
        io.reset(dflt ? new cmp::data_io_stream<R>(res.r()) : new cmp::data_io_stream<R>(res.r(), endian_of(s["e"].s)));
        i = io.get();
        o = io.get();
    } else {
        in.reset(dflt ? new cmp::data_input_stream<R>(res.r()) : new cmp::data_input_stream<R>(res.r(), endian_of(s["e"].s)));
        out.reset(dflt ? new cmp::data_output_stream<R>(res.r()) : new cmp::data_output_stream<R>(res.r(), endian_of(s["e"].s)));
        i = in.get();
        o = out.get();
    }
    const std::string e0 = dflt ? native : s["e"].s;
    w.O().k("native").s(native).k("ein").s(e0).k("eout").s(e0).k("cap").i(s["cap"].n).k("content").units(content).k("ev").A();
    auto tail = [&](const std::string& x) {
        const auto &ci = *i;
        const auto &co = *o;
        R* there = &res.r();
        bool same = &i->grab_resource() == there && &o->grab_resource() == there && &ci.grab_resource() == there && &co.grab_resource() == there
            && i->operator->() == there && o->operator->() == there && (!io || io->operator->() == there);
        w.k("x").s(x).k("gein").s(name(i->get_endianness())).k("geout").s(name(o->get_endianness())).k("same").b(same)
            .k("iend").b(i->is_at_end()).k("oend").b(o->is_at_end()).k("disk").units(res.disk()).o();
    };
    for (auto& e : s["ops"].a) {
        const std::string& op = e["op"].s;
        std::string x;
        w.O().k("op").s(op);
        if (op == "put") with_type(e["t"].s, [&](auto z) {
            using T = decltype(z);
            Bytes b = bytes_of(e["v"]);
            if (b.size() != sizeof(T)) std::_Exit(3);
            T v;
            std::memcpy((void*)&v, b.data(), sizeof v);
            const T& cv = v;
            Bytes before = rep(v);
            if (e.has("const")) x = guarded([&] { *o << cv; });
            else x = guarded([&] { *o << v; });
            w.k("v").units(before).k("after").units(rep(v));
        });
        else if (op == "get") with_type(e["t"].s, [&](auto z) {
            using T = decltype(z);
            T v;
            Bytes fill(sizeof(T), 1);
            std::memcpy((void*)&v, fill.data(), sizeof v);
            x = guarded([&] { *i >> v; });
            w.k("before").units(fill).k("v").units(rep(v));
        });
        else if (op == "copy") {
            const bool mv = e["mv"].n != 0;
            auto renew = [&](auto& p) { using T = std::remove_cvref_t<decltype(*p)>; if (p) p.reset(mv ? new T(std::move(*p)) : new T(*p)); };
            renew(io); renew(in); renew(out);
            if (io) { i = io.get(); o = io.get(); } else { i = in.get(); o = out.get(); }
        }
        else if (op == "raw" || op == "rev") {           // bytes as they are, or in reverse
            Bytes b = bytes_of(e["v"]);
            std::unique_ptr<std::byte[]> m(new std::byte[b.size()]);
            std::copy(b.begin(), b.end(), (unsigned char*)m.get());
            std::size_t n = 0;
            x = guarded([&] { n = op == "raw" ? o->write(m.get(), b.size()) : o->reverse_write(m.get(), b.size()); });
            w.k("v").units(b).k("n").i((long long)n);
        } else if (op == "grab") {
            std::size_t n = (std::size_t)e["n"].n, k = 0;
            std::unique_ptr<std::byte[]> m(new std::byte[n]);
            std::fill_n((unsigned char*)m.get(), n, 0xA5);
            x = guarded([&] { k = i->read(m.get(), n); });
            Bytes b((unsigned char*)m.get(), (unsigned char*)m.get() + std::min(k, n));
            bool rest = k <= n;
            for (std::size_t q = k; q < n; ++q) rest &= ((unsigned char*)m.get())[q] == 0xA5;
            w.k("n").i((long long)n).k("v").units(b).k("rest").b(rest);
        }
        else if (op == "ein") { i->set_endianness(endian_of(e["e"].s)); w.k("e").s(e["e"].s); }
        else if (op == "eout") { o->set_endianness(endian_of(e["e"].s)); w.k("e").s(e["e"].s); }
        else if (op == "seek") { res.r().set_position(e["n"].n, cmp::position_reference::begin); w.k("n").i(e["n"].n); }
        else if (op == "flush") o->flush();
        else std::_Exit(3);
        tail(x);
    }
    auto gi = i->get_endianness(), go = o->get_endianness();
    io.reset(); in.reset(); out.reset();
    res.finish();
    w.O().k("op").s("end").k("x").s("").k("gein").s(name(gi)).k("geout").s(name(go)).k("same").b(true).k("disk").units(res.disk()).o();
    w.a().o();
}
static void run(const J& s, W& w) {
    const std::string &what = s["what"].s, &k = s["kind"].s;
    if (what == "out") {
        if (k == "oio") text_out<OIO, cmp::text_io_stream>(s, w);
        else if (k == "tio") text_out<TIO, cmp::text_output_stream>(s, w);
        else if (k == "file") text_out<FileRes, cmp::text_output_stream>(s, w);
        else if (k == "fileio") text_out<FileRes, cmp::text_io_stream>(s, w);
        else if (k == "oout") text_out<OOUT, cmp::text_output_stream>(s, w);
        else if (k == "tout") text_out<TOUT, cmp::text_output_stream>(s, w);
        else std::_Exit(3);
    } else if (what == "in") {
        if (k == "oio") text_in<OIO, cmp::text_io_stream>(s, w);
        else if (k == "tio") text_in<TIO, cmp::text_input_stream>(s, w);
        else if (k == "file") text_in<FileRes, cmp::text_input_stream>(s, w);
        else if (k == "fileio") text_in<FileRes, cmp::text_io_stream>(s, w);
        else if (k == "oin") text_in<OIN, cmp::text_input_stream>(s, w);
        else if (k == "tin") text_in<TIN, cmp::text_input_stream>(s, w);
        else std::_Exit(3);
    } else if (what == "data") {
        if (k == "oio") data<OIO>(s, w);
        else if (k == "tio") data<TIO>(s, w);
        else if (k == "file") data<FileRes>(s, w);
        else std::_Exit(3);
    } else std::_Exit(3);
}
int main() {
    const char* base = std::getenv("VP_SCRATCH");
    scratch = std::string(base ? base : "/tmp") + "/strXXXXXX";
    if (!mkdtemp(scratch.data())) return 3;
    int rc = script_loop(run);
    ::rmdir(scratch.c_str());
    return rc;
}
