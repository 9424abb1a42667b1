// Drives formats, formatters, parsers and the numeric helpers.  One script per line.
#include "common.hpp"
#include <bit>
#include <cmath>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/core/general.hpp>
#include <cmp/io/general.hpp>

template <typename T> using sv = std::basic_string_view<T>;
template <typename T> using st = std::basic_string<T>;
template <typename T> struct Exact {
    std::unique_ptr<T[]> p; std::size_t n;
    explicit Exact(const std::vector<long long>& v) : p(new T[v.size()]), n(v.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = (T)v[i]; }
    sv<T> view() const { return {p.get(), n}; }
};
static std::vector<long long> ints(const J& j) { std::vector<long long> v; for (auto& x : j.a) v.push_back(x.n); return v; }
static void log_units(W& w, const std::vector<long long>& v) { w.A(); for (auto x : v) w.i((std::int32_t)(std::uint32_t)x); w.a(); }
static const char* type_name(cmp::parse_failed::type t) {
    using P = cmp::parse_failed::type;
    switch (t) {
    case P::empty_input: return "empty_input";
    case P::neither_boolean: return "neither_boolean";
    case P::multiple_signs: return "multiple_signs";
    case P::thousands_separator_missing: return "thousands_separator_missing";
    case P::digit_character_expected: return "digit_character_expected";
    case P::negative_unsigned: return "negative_unsigned";
    case P::wrong_place_limit: return "wrong_place_limit";
    case P::out_of_range: return "out_of_range";
    }
    return "unknown";
}
template <typename F> std::string guarded(F f) {
    try { f(); return ""; }
    catch (const cmp::parse_failed& e) { return type_name(e.get_type()); }
    catch (const cmp::invalid_radix&) { return "invalid_radix"; }
    catch (const cmp::invalid_unicode_encoding&) { return "invalid_unicode_encoding"; }
    catch (const cmp::iterated_past_end&) { return "iterated_past_end"; }
    catch (const cmp::invalid_code_point&) { return "invalid_code_point"; }
    catch (...) { return "unknown"; }
}
template <typename F> void with_form(const std::string& f, F g) {
    if (f == "c") g((char*)nullptr);
    else if (f == "u8") g((char8_t*)nullptr);
    else if (f == "u16") g((char16_t*)nullptr);
    else if (f == "u32") g((char32_t*)nullptr);
    else if (f == "w") g((wchar_t*)nullptr);
    else std::_Exit(3);
}
template <typename F> void with_int(const std::string& f, F g) {
    if (f == "sc") g((signed char)0);
    else if (f == "uc") g((unsigned char)0);
    else if (f == "ch") g((char)0);
    else if (f == "s") g((short)0);
    else if (f == "us") g((unsigned short)0);
    else if (f == "i") g((int)0);
    else if (f == "u") g((unsigned)0);
    else if (f == "l") g((long)0);
    else if (f == "ul") g((unsigned long)0);
    else if (f == "ll") g((long long)0);
    else if (f == "ull") g((unsigned long long)0);
    else std::_Exit(3);
}
template <typename F> void with_flt(const std::string& f, F g) {
    if (f == "f") g((float)0);
    else if (f == "d") g((double)0);
    else if (f == "ld") g((long double)0);
    else std::_Exit(3);
}
template <typename T> std::vector<long long> encode(const std::vector<long long>& cps) {
    std::vector<long long> r;
    for (long long c : cps) {
        if constexpr (std::is_same_v<T, char8_t>) {
            if (c < 0x80) r.push_back(c);
            else if (c < 0x800) { r.push_back(0xC0 + c / 64); r.push_back(0x80 + c % 64); }
            else if (c < 0x10000) { r.push_back(0xE0 + c / 4096); r.push_back(0x80 + c / 64 % 64); r.push_back(0x80 + c % 64); }
            else { r.push_back(0xF0 + c / 262144); r.push_back(0x80 + c / 4096 % 64); r.push_back(0x80 + c / 64 % 64); r.push_back(0x80 + c % 64); }
        } else if constexpr (std::is_same_v<T, char16_t>) {
            if (c < 0x10000) r.push_back(c);
            else { r.push_back(0xD800 + (c - 0x10000) / 1024); r.push_back(0xDC00 + (c - 0x10000) % 1024); }
        } else r.push_back(c);
    }
    return r;
}
static void limbs(W& w, unsigned __int128 v) { w.A(); while (v) { w.i((long long)(v % 4096)); v /= 4096; } w.a(); }
static unsigned long long from_limbs(const J& j) {
    unsigned long long v = 0;
    for (std::size_t i = j.size(); i-- > 0;) v = v * 4096 + (unsigned long long)j[i].n;
    return v;
}
static cmp::sign_status sign_of(const std::string& s) { return s == "always" ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative; }
static cmp::thousands_separator sep_of(const std::string& s) {
    return s == "none" ? cmp::thousands_separator::none : s == "comma" ? cmp::thousands_separator::comma : cmp::thousands_separator::period;
}
static cmp::radix_character rchar_of(const std::string& s) { return s == "comma" ? cmp::radix_character::comma : cmp::radix_character::period; }
static cmp::radix_place_limit limit_of(const std::string& s) {
    return s == "none" ? cmp::radix_place_limit::none : s == "exactly" ? cmp::radix_place_limit::exactly_equal : cmp::radix_place_limit::up_to;
}
static cmp::integer_format intf(const J& f) { return {(unsigned)f["radix"].n, sign_of(f["sign"].s), sep_of(f["sep"].s)}; }
static cmp::floating_point_format fltf(const J& f) {
    return {(unsigned)f["radix"].n, sign_of(f["sign"].s), sep_of(f["sep"].s), rchar_of(f["rchar"].s), limit_of(f["limit"].s), (unsigned)f["places"].n};
}
static void log_f(W& w, const J& f) {
    w.k("f").O().k("radix").i(f["radix"].n).k("sign").s(f["sign"].s).k("sep").s(f["sep"].s);
    if (f.has("rchar")) w.k("rchar").s(f["rchar"].s).k("limit").s(f["limit"].s).k("places").i(f["places"].n);
    w.o();
}

static void do_fmt(const J& s, W& w) {
    // type, forms, vals: [neg, limbs]
    auto f = intf(s["f"]);
    with_int(s["t"].s, [&](auto z) {
        using T = decltype(z);
        for (auto& fo : s["forms"].a) with_form(fo.s, [&](auto* p) {
            using C = std::remove_pointer_t<decltype(p)>;
            for (auto& v : s["vals"].a) {
                unsigned long long m = from_limbs(v[1]);
                T val = (T)(v[0].n ? 0 - m : m);
                st<C> out;
                std::string x = guarded([&] { out = cmp::format_integer<st<C>>(val, f); });
                // what was actually formatted
                bool neg = val < 0;
                unsigned long long mag = neg ? 0 - (unsigned long long)val : (unsigned long long)val;
                w.O().k("op").s("fmt"); log_f(w, s["f"]);
                w.k("neg").b(neg).k("mag"); limbs(w, mag);
                w.k("form").s(fo.s).k("out").units(out).k("x").s(x).o();
                // and back
                if (s.has("back")) {
                    T got{};
                    Exact<C> b(std::vector<long long>(out.begin(), out.end()));
                    std::string y = guarded([&] { got = cmp::parse_integer<T>(b.view(), f); });
                    bool gn = got < 0;
                    unsigned long long gm = gn ? 0 - (unsigned long long)got : (unsigned long long)got;
                    w.O().k("op").s("back").k("neg").b(neg).k("mag"); limbs(w, mag);
                    w.k("x").s(y).k("gneg").b(gn).k("gmag"); limbs(w, gm); w.o();
                }
            }
        });
    });
}
template <typename T, typename C, typename F, typename G> T call_parse(const std::vector<long long>& u, int api, const F& f, G g) {
    if (api == 1) { st<C> o; for (auto x : u) o.push_back((C)x); return g(o, f); }
    if (api == 2) { std::vector<long long> z(u); z.push_back(0); Exact<C> b(z); const C* p = b.p.get(); return g(p, f); }
    Exact<C> b(u);
    return g(b.view(), f);
}
static void do_parse(const J& s, W& w, bool raw) {
    auto f = intf(s["f"]);
    int api = s.has("api") ? (int)s["api"].n : 0;
    with_int(s["t"].s, [&](auto z) {
        using T = decltype(z);
        for (auto& fo : s["forms"].a) with_form(fo.s, [&](auto* p) {
            using C = std::remove_pointer_t<decltype(p)>;
            for (auto& v : s["txts"].a) {
                auto cps = ints(v);
                auto u = raw ? cps : encode<C>(cps);
                T got{};
                std::string x = guarded([&] { got = call_parse<T, C>(u, api, f, [](const auto& a, const auto& b) { return cmp::parse_integer<T>(a, b); }); });
                bool gn = got < 0;
                unsigned long long gm = gn ? 0 - (unsigned long long)got : (unsigned long long)got;
                w.O().k("op").s(raw ? "parseraw" : "parse"); log_f(w, s["f"]);
                w.k("signed").b(std::is_signed_v<T>).k("bits").i(sizeof(T) * 8).k("form").s(fo.s);
                if (!raw) { w.k("txt"); log_units(w, cps); }
                w.k("in"); log_units(w, u);
                w.k("x").s(x).k("neg").b(gn).k("mag"); limbs(w, gm); w.o();
            }
        });
    });
}
// the value as sign, integral part and the first 47 places of the fraction
template <typename T> void log_parts(W& w, T v) {
    bool neg = std::signbit(v);
    T a = std::fabs(v), ip = std::floor(a), fr = a - ip;
    T sc = std::ldexp(fr, 47), fl = std::floor(sc);
    w.k("neg").b(neg).k("int"); limbs(w, (unsigned __int128)ip);
    w.k("frac"); limbs(w, (unsigned __int128)fl);
    w.k("exact").b(fl == sc);
}
static void do_ffmt(const J& s, W& w) {
    // vals: [neg, int limbs, num limbs, k]; approx: the fraction need not scale exactly
    auto f = fltf(s["f"]);
    bool approx = s.has("approx");
    with_flt(s["t"].s, [&](auto z) {
        using T = decltype(z);
        for (auto& fo : s["forms"].a) with_form(fo.s, [&](auto* p) {
            using C = std::remove_pointer_t<decltype(p)>;
            for (auto& v : s["vals"].a) {
                T fr = std::ldexp((T)from_limbs(v[2]), -(int)v[3].n);
                T val = (T)from_limbs(v[1]) + fr;
                if (v[0].n) val = -val;
                st<C> out;
                std::string x = guarded([&] { out = cmp::format_floating_point<st<C>>(val, f); });
                w.O().k("op").s(approx ? "fapprox" : "ffmt"); log_f(w, s["f"]);
                if (approx) { w.k("slack").i(std::is_same_v<T, float> ? 25 : 0); log_parts(w, val); }
                else {
                    w.k("neg").b(v[0].n != 0).k("int"); limbs(w, from_limbs(v[1]));
                    w.k("num"); limbs(w, from_limbs(v[2])); w.k("k").i(v[3].n);
                }
                w.k("form").s(fo.s).k("out").units(out).k("x").s(x).o();
            }
        });
    });
}
static void do_fparse(const J& s, W& w) {
    auto f = fltf(s["f"]);
    int api = s.has("api") ? (int)s["api"].n : 0;
    with_flt(s["t"].s, [&](auto z) {
        using T = decltype(z);
        for (auto& fo : s["forms"].a) with_form(fo.s, [&](auto* p) {
            using C = std::remove_pointer_t<decltype(p)>;
            for (auto& v : s["txts"].a) {
                auto cps = ints(v);
                auto u = encode<C>(cps);
                T got{};
                std::string x = guarded([&] { got = call_parse<T, C>(u, api, f, [](const auto& a, const auto& b) { return cmp::parse_floating_point<T>(a, b); }); });
                w.O().k("op").s("fparse"); log_f(w, s["f"]);
                w.k("slack").i(std::is_same_v<T, float> ? 29 : 0).k("form").s(fo.s).k("txt"); log_units(w, cps);
                w.k("in"); log_units(w, u);
                w.k("x").s(x); log_parts(w, got); w.o();
            }
        });
    });
}
static std::u8string u8of(const std::vector<long long>& cps) { std::u8string r; for (auto x : encode<char8_t>(cps)) r.push_back((char8_t)x); return r; }
static void do_bool(const J& s, W& w) {
    auto ts = ints(s["ts"]), fs = ints(s["fs"]);
    cmp::bool_format f{u8of(ts), u8of(fs)};
    int api = s.has("api") ? (int)s["api"].n : 0;
    for (auto& fo : s["forms"].a) with_form(fo.s, [&](auto* p) {
        using C = std::remove_pointer_t<decltype(p)>;
        for (int v = 0; v < 2; ++v) {
            if (fo.s == "c" && s.has("wide")) break;
            st<C> out;
            std::string x = guarded([&] { out = cmp::format_bool<st<C>>(v != 0, f); });
            w.O().k("op").s("bfmt").k("v").b(v != 0).k("ts"); log_units(w, ts); w.k("fs"); log_units(w, fs);
            w.k("form").s(fo.s).k("out").units(out).k("x").s(x).o();
        }
        for (auto& t : s["txts"].a) {
            auto cps = ints(t);
            bool got = false;
            auto u = encode<C>(cps);
            std::string x = guarded([&] { got = call_parse<bool, C>(u, api, f, [](const auto& a, const auto& b) { return cmp::parse_bool(a, b); }); });
            w.O().k("op").s("bparse").k("ts"); log_units(w, ts); w.k("fs"); log_units(w, fs);
            w.k("txt"); log_units(w, cps); w.k("form").s(fo.s).k("in"); log_units(w, u);
            w.k("x").s(x).k("v").b(got).o();
        }
    });
}
static void do_count(const J& s, W& w) {
    with_int(s["t"].s, [&](auto z) {
        using T = decltype(z);
        for (auto& v : s["vals"].a) {
            unsigned long long m = from_limbs(v[1]);
            T val = (T)(v[0].n ? 0 - m : m);
            bool neg = val < 0;
            unsigned long long mag = neg ? 0 - (unsigned long long)val : (unsigned long long)val;
            for (auto& r : s["radices"].a) {
                unsigned n = cmp::count_digits<T>(val, (T)r.n);
                w.O().k("op").s("count").k("mag"); limbs(w, mag); w.k("radix").i(r.n).k("n").i(n).o();
            }
        }
    });
}
static void do_cmp(const J& s, W& w) {
    // pairs: [an, aj, bn, bj, p]
    with_flt(s["t"].s, [&](auto z) {
        using T = decltype(z);
        with_flt(s["t2"].s, [&](auto z2) {
            using U = decltype(z2);
            for (auto& v : s["pairs"].a) {
                T a = std::ldexp((T)v[0].n, -(int)v[1].n);
                U b = std::ldexp((U)v[2].n, -(int)v[3].n);
                bool eq = cmp::cmp_equal(a, b, (unsigned)v[4].n), ne = cmp::cmp_not_equal(a, b, (int)v[4].n);
                w.O().k("op").s("cmp").k("an").i(v[0].n).k("aj").i(v[1].n).k("bn").i(v[2].n).k("bj").i(v[3].n).k("p").i(v[4].n).k("eq").b(eq).k("ne").b(ne).o();
            }
        });
    });
}
static void do_invert(const J& s, W& w) {
    auto v = ints(s["bytes"]);
    std::unique_ptr<std::byte[]> b(new std::byte[v.size()]);
    for (std::size_t i = 0; i < v.size(); ++i) b[i] = (std::byte)v[i];
    cmp::invert_endianness(b.get() + s["at"].n, (std::size_t)s["n"].n);
    w.O().k("op").s("invert").k("before"); log_units(w, v);
    w.k("at").i(s["at"].n).k("n").i(s["n"].n).k("after").A();
    for (std::size_t i = 0; i < v.size(); ++i) w.i((long long)b[i]);
    w.a().o();
    auto nm = [](std::endian e) { return e == std::endian::little ? "little" : e == std::endian::big ? "big" : "other"; };
    w.O().k("op").s("opposite").k("little").s(nm(cmp::get_opposite_endianness(std::endian::little))).k("big").s(nm(cmp::get_opposite_endianness(std::endian::big))).o();
}
// ------------------------------------------------------------- format objects
static std::string u8s(const std::u8string& s) { return std::string((const char*)s.data(), s.size()); }
static std::u8string su8(const std::string& s) { return std::u8string((const char8_t*)s.data(), s.size()); }
static const char* nm(cmp::sign_status s) { return s == cmp::sign_status::always_show ? "always" : s == cmp::sign_status::only_when_negative ? "neg" : "?"; }
static const char* nm(cmp::thousands_separator s) {
    return s == cmp::thousands_separator::none ? "none" : s == cmp::thousands_separator::comma ? "comma" : s == cmp::thousands_separator::period ? "period" : "?";
}
static const char* nm(cmp::radix_character s) { return s == cmp::radix_character::comma ? "comma" : s == cmp::radix_character::period ? "period" : "?"; }
static const char* nm(cmp::radix_place_limit s) {
    return s == cmp::radix_place_limit::none ? "none" : s == cmp::radix_place_limit::exactly_equal ? "exactly" : s == cmp::radix_place_limit::up_to ? "upto" : "?";
}
static unsigned num(const std::string& s) { return (unsigned)std::strtoull(s.c_str(), nullptr, 10); }
static void do_formats(const J& s, W& w) {
    cmp::integer_format I[2];
    cmp::floating_point_format F[2];
    cmp::bool_format B[2];
    auto state = [&] {
        w.k("st").O().k("int").A();
        for (auto& f : I) w.O().k("radix").s(std::to_string(f.get_radix())).k("sign").s(nm(f.get_sign_status())).k("sep").s(nm(f.get_thousands_separator())).o();
        w.a().k("flt").A();
        for (auto& f : F)
            w.O().k("radix").s(std::to_string(f.get_radix())).k("sign").s(nm(f.get_sign_status())).k("sep").s(nm(f.get_thousands_separator()))
                .k("rchar").s(nm(f.get_radix_character())).k("limit").s(nm(f.get_radix_place_limit())).k("places").s(std::to_string(f.get_radix_place_count())).o();
        w.a().k("bool").A();
        for (auto& f : B) w.O().k("ts").s(u8s(f.get_true_string())).k("fs").s(u8s(f.get_false_string())).o();
        w.a().o();
    };
    w.O().k("op").s("init"); state(); w.o();
    for (auto& op : s["ops"].a) {
        const std::string &o = op["op"].s, &k = op["k"].s;
        int i = (int)op["o"].n - 1;
        std::string x;
        if (o == "set") {
            const std::string &a = op["a"].s, &v = op["v"].s;
            x = guarded([&] {
                if (k == "int") {
                    if (a == "radix") I[i].set_radix(num(v));
                    else if (a == "sign") I[i].set_sign_status(sign_of(v));
                    else if (a == "sep") I[i].set_thousands_separator(sep_of(v));
                } else if (k == "flt") {
                    if (a == "radix") F[i].set_radix(num(v));
                    else if (a == "sign") F[i].set_sign_status(sign_of(v));
                    else if (a == "sep") F[i].set_thousands_separator(sep_of(v));
                    else if (a == "rchar") F[i].set_radix_character(rchar_of(v));
                    else if (a == "limit") F[i].set_radix_place_limit(limit_of(v));
                    else if (a == "places") F[i].set_radix_place_count(num(v));
                } else {
                    if (a == "ts") B[i].set_true_string(su8(v));
                    else if (a == "fs") B[i].set_false_string(su8(v));
                }
            });
            w.O().k("op").s("set").k("k").s(k).k("o").i(i + 1).k("a").s(a).k("v").s(v).k("x").s(x);
        } else if (o == "ctor") {
            const J& r = op["r"];
            x = guarded([&] {
                if (k == "int") I[i] = cmp::integer_format{num(r["radix"].s), sign_of(r["sign"].s), sep_of(r["sep"].s)};
                else if (k == "flt")
                    F[i] = cmp::floating_point_format{num(r["radix"].s), sign_of(r["sign"].s), sep_of(r["sep"].s), rchar_of(r["rchar"].s), limit_of(r["limit"].s), num(r["places"].s)};
                else B[i] = cmp::bool_format{su8(r["ts"].s), su8(r["fs"].s)};
            });
            w.O().k("op").s("ctor").k("k").s(k).k("o").i(i + 1).k("r").O();
            for (auto& [key, val] : r.o) w.k(key.c_str()).s(val.s);
            w.o().k("x").s(x);
        } else if (o == "reset") {
            if (k == "int") I[i] = cmp::integer_format{};
            else if (k == "flt") F[i] = cmp::floating_point_format{};
            else B[i] = cmp::bool_format{};
            w.O().k("op").s("reset").k("k").s(k).k("o").i(i + 1);
        } else {
            if (k == "int") I[i] = cmp::integer_format(I[1 - i]);
            else if (k == "flt") F[i] = F[1 - i];
            else B[i] = B[1 - i];
            w.O().k("op").s("copy").k("k").s(k).k("o").i(i + 1);
        }
        state();
        w.o();
    }
}
int main() {
    return script_loop([](const J& s, W& w) {
        w.O().k("ev").A();
        const std::string& op = s.has("op") ? s["op"].s : *new std::string("formats");
        if (op == "fmt") do_fmt(s, w);
        else if (op == "parse") do_parse(s, w, false);
        else if (op == "parseraw") do_parse(s, w, true);
        else if (op == "ffmt") do_ffmt(s, w);
        else if (op == "fparse") do_fparse(s, w);
        else if (op == "bool") do_bool(s, w);
        else if (op == "count") do_count(s, w);
        else if (op == "cmp") do_cmp(s, w);
        else if (op == "invert") do_invert(s, w);
        else if (op == "formats") do_formats(s, w);
        else std::_Exit(3);
        w.a().o();
    });
}
