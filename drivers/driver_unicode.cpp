// Drives the public interface of cmp/unicode: conversion, iteration, validation, editing,
// prefixes and suffixes, classification.  One script per line, one trace line per script.
#include "common.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/examiners.hpp>
#include <thread>

template <typename T> using sv = std::basic_string_view<T>;
template <typename T> using st = std::basic_string<T>;

// exactly sized heap copy, so that a read outside it is caught
template <typename T> struct Exact {
    std::unique_ptr<T[]> p; std::size_t n;
    explicit Exact(const std::vector<long long>& v) : p(new T[v.size()]), n(v.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = (T)v[i]; }
    sv<T> view() const { return {p.get(), n}; }
};
static std::vector<long long> ints(const J& j) { std::vector<long long> v; for (auto& x : j.a) v.push_back(x.n); return v; }

template <typename F> std::string guarded(F f) {
    try { f(); return ""; }
    catch (const cmp::invalid_unicode_encoding&) { return "invalid_unicode_encoding"; }
    catch (const cmp::iterated_past_end&) { return "iterated_past_end"; }
    catch (const cmp::invalid_code_point&) { return "invalid_code_point"; }
    catch (const std::exception& e) { return std::string("std:") + e.what(); }
    catch (...) { return "unknown"; }
}
template <typename F> void with_form(const std::string& f, F g) {
    if (f == "c") g((char*)nullptr);
    else if (f == "u8") g((char8_t*)nullptr);
    else if (f == "u16") g((char16_t*)nullptr);
    else if (f == "u32") g((char32_t*)nullptr);
    else if (f == "w") g((wchar_t*)nullptr);
    else { std::fprintf(stderr, "form %s\n", f.c_str()); std::_Exit(3); }
}
// the driver's own encoder; what it produces is logged and checked by the specification
template <typename T> std::vector<long long> encode(const std::vector<long long>& cps) {
    std::vector<long long> r;
    for (long long c : cps) {
        if constexpr (std::is_same_v<T, char8_t>) {
            if (c < 0x80) r.push_back(c);
            else if (c < 0x800) { r.push_back(0xC0 + c / 64); r.push_back(0x80 + c % 64); }
            else if (c < 0x10000) { r.push_back(0xE0 + c / 4096); r.push_back(0x80 + c / 64 % 64); r.push_back(0x80 + c % 64); }
            else { r.push_back(0xF0 + c / 262144); r.push_back(0x80 + c / 4096 % 64); r.push_back(0x80 + c / 64 % 64); r.push_back(0x80 + c % 64); }
        } else if constexpr (std::is_same_v<T, char16_t>) {
            if (c < 0x10000) r.push_back(c);
            else { r.push_back(0xD800 + (c - 0x10000) / 1024); r.push_back(0xDC00 + (c - 0x10000) % 1024); }
        } else r.push_back(c);
    }
    return r;
}
static void log_units(W& w, const std::vector<long long>& v) { w.A(); for (auto x : v) w.i((std::int32_t)(std::uint32_t)x); w.a(); }

template <typename D, typename S> st<D> convert(const S& s, int api) {
    if (api % 2 == 0) return cmp::convert_string<st<D>>(s);
    if constexpr (std::is_same_v<D, char>) return cmp::to_string(s);
    else if constexpr (std::is_same_v<D, char8_t>) return cmp::to_u8string(s);
    else if constexpr (std::is_same_v<D, char16_t>) return cmp::to_u16string(s);
    else if constexpr (std::is_same_v<D, char32_t>) return cmp::to_u32string(s);
    else return cmp::to_wstring(s);
}
// api: 0/1 view over an exact buffer, 2/3 owning string, 4/5 null-terminated pointer
template <typename S> void conv_one(W& w, const char* src, const std::vector<long long>& in, const std::string& dst, int api) {
    bool zero = false;
    for (auto x : in) if (x == 0) zero = true;
    if (api >= 4 && zero) api -= 4;
    with_form(dst, [&](auto* dp) {
        using D = std::remove_pointer_t<decltype(dp)>;
        st<D> out;
        Exact<S> b(in);
        std::string x = guarded([&] {
            if (api < 2) out = convert<D>(b.view(), api);
            else if (api < 4) { st<S> s(b.view()); out = convert<D>(s, api); }
            else {
                std::vector<long long> z(in); z.push_back(0);
                Exact<S> t(z);
                const S* p = t.p.get();
                out = convert<D>(p, api);
            }
        });
        w.O().k("op").s("conv").k("src").s(src).k("dst").s(dst).k("api").i(api).k("in");
        log_units(w, in);
        w.k("out").units(out).k("x").s(x).o();
    });
}
template <typename S> void iter_one(W& w, const char* src, const std::vector<long long>& in) {
    Exact<S> b(in);
    std::vector<long long> cps;
    std::string x = guarded([&] { for (char32_t c : cmp::by_code_point(b.view())) cps.push_back(c); });
    w.O().k("op").s("iter").k("src").s(src).k("in"); log_units(w, in);
    w.k("cps"); log_units(w, cps); w.k("x").s(x).o();
}
template <typename S> void valid_one(W& w, const char* src, const std::vector<long long>& in) {
    Exact<S> b(in);
    long long n = -1; bool end = false;
    std::string x = guarded([&] {
        auto v = b.view();
        auto it = cmp::validate_string(v);
        cmp::by_code_point r(v);
        end = it == r.cend();
        auto i = r.cbegin();
        n = 0;
        while (!(i == it)) { ++i; ++n; if (n > (long long)in.size()) { n = -2; break; } }
    });
    w.O().k("op").s("valid").k("src").s(src).k("in"); log_units(w, in);
    w.k("n").i(n).k("end").b(end).k("x").s(x).o();
}

template <typename T> void sweep_form(W& w, const char* key, long long a, long long b, std::vector<int>& thrown, st<T>& all) {
    w.k(key).A();
    for (long long c = a; c <= b; ++c) {
        st<T> s;
        try { cmp::append_code_point(s, (char32_t)c); }
        catch (const cmp::invalid_code_point&) { ++thrown[c - a]; }
        w.units(s);
        all += s;
    }
    w.a();
}
template <typename S> bool same_from(const st<S>& src, const st<char8_t>& a, const st<char16_t>& b, const st<char32_t>& c, const st<wchar_t>& d) {
    bool r = true;
    std::string x = guarded([&] {
        r = cmp::to_u8string(src) == a && cmp::to_u16string(src) == b && cmp::to_u32string(src) == c && cmp::to_wstring(src) == d;
    });
    return r && x.empty();
}

// runs of values on which f is true within [lo, hi]
using Runs = std::vector<std::pair<std::uint64_t, std::uint64_t>>;
template <typename F> Runs scan(F f, std::uint64_t lo, std::uint64_t hi) {
    unsigned nt = hi - lo > 4000000 ? 8 : 1;
    std::vector<Runs> part(nt);
    std::vector<std::thread> th;
    std::uint64_t step = (hi - lo) / nt + 1;
    for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t] {
        std::uint64_t a = lo + step * t, b = std::min(hi, a + step - 1);
        for (std::uint64_t v = a; v <= b; ++v) if (f(v)) {
            if (!part[t].empty() && part[t].back().second + 1 == v) part[t].back().second = v;
            else { part[t].push_back({v, v}); if (part[t].size() > 3000) return; }
        }
    });
    for (auto& t : th) t.join();
    Runs r;
    for (auto& p : part) for (auto& q : p)
        if (!r.empty() && r.back().second + 1 == q.first) r.back().second = q.second; else r.push_back(q);
    if (r.size() > 3000) r.resize(3000);
    return r;
}

int main() {
    return script_loop([](const J& j, W& w) {
        w.O().k("ev").A();
        const std::string op = j["op"].s;
        if (op == "units") {            // code unit sequences of one form: convert everywhere, iterate, validate
            const std::string src = j["src"].s;
            bool iter = j.has("iter");
            for (std::size_t i = 0; i < j["in"].size(); ++i) {
                auto in = ints(j["in"][i]);
                with_form(src, [&](auto* p) {
                    using S = std::remove_pointer_t<decltype(p)>;
                    for (auto& d : j["dst"].a) conv_one<S>(w, src.c_str(), in, d.s, int(j["api"].n));
                    if (iter && (src == "u8" || src == "u16")) iter_one<S>(w, src.c_str(), in);
                    if (iter && src != "c") valid_one<S>(w, src.c_str(), in);
                });
            }
        } else if (op == "sweep") {
            long long a = j["a"].n, b = j["b"].n;
            std::vector<int> thrown(b - a + 1, 0);
            st<char8_t> s8; st<char16_t> s16; st<char32_t> s32; st<wchar_t> sw;
            w.O().k("op").s("sweep").k("a").i(a).k("b").i(b);
            sweep_form(w, "u8", a, b, thrown, s8);
            sweep_form(w, "u16", a, b, thrown, s16);
            sweep_form(w, "u32", a, b, thrown, s32);
            sweep_form(w, "w", a, b, thrown, sw);
            w.k("thrown").A(); for (int t : thrown) w.i(t); w.a();
            bool same = same_from(s8, s8, s16, s32, sw) && same_from(s16, s8, s16, s32, sw)
                && same_from(s32, s8, s16, s32, sw) && same_from(sw, s8, s16, s32, sw);
            w.k("pairs_same").b(same).o();
        } else if (op == "edit") {      // history of insertions: [[kind, cp, idx]...]
            const std::string f = j["form"].s;
            with_form(f, [&](auto* p) {
                using S = std::remove_pointer_t<decltype(p)>;
                auto in = ints(j["in"]);
                st<S> s;
                for (auto x : in) s += (S)x;
                w.O().k("op").s("start").k("after").units(s).o();
                for (auto& e : j["ops"].a) {
                    long long kind = e[0].n, cp = e[1].n;
                    std::size_t idx = std::size_t(e[2].n) % (s.size() + 1);
                    if (kind == 1) idx = s.size();
                    if (kind == 2) idx = 0;
                    std::string x = guarded([&] {
                        if (kind == 0) cmp::insert_code_point(s, (char32_t)cp, idx);
                        else if (kind == 1) cmp::append_code_point(s, (char32_t)cp);
                        else cmp::prepend_code_point(s, (char32_t)cp);
                    });
                    w.O().k("op").s("ins").k("form").s(f).k("cp").i((std::int32_t)cp).k("idx").i((long long)idx)
                        .k("after").units(s).k("x").s(x).o();
                }
            });
        } else if (op == "affix") {     // pairs of code point sequences, in every pair of encodings
            auto a = ints(j["a"]), b = ints(j["b"]);
            auto ascii = [](auto& v) { for (auto x : v) if (x > 127) return false; return true; };
            w.O().k("op").s("affix").k("a"); log_units(w, a); w.k("b"); log_units(w, b); w.k("r").A();
            const char* forms[] = {"c", "u8", "u16", "u32", "w"};
            for (int fa = 0; fa < 5; ++fa) for (int fb = 0; fb < 5; ++fb) {
                if ((fa == 0 && !ascii(a)) || (fb == 0 && !ascii(b))) continue;
                with_form(forms[fa], [&](auto* pa) { with_form(forms[fb], [&](auto* pb) {
                    using A = std::remove_pointer_t<decltype(pa)>; using B = std::remove_pointer_t<decltype(pb)>;
                    Exact<A> ba(encode<A>(a)); Exact<B> bb(encode<B>(b));
                    int sw = 2, ew = 2;
                    auto va = ba.view(); auto vb = bb.view();
                    guarded([&] { sw = cmp::starts_with(va, vb); });
                    guarded([&] { ew = cmp::ends_with(va, vb); });
                    w.A().i(fa).i(fb).i(sw).i(ew).a();
                }); });
            }
            w.a().o();
        } else if (op == "affixraw") {
            auto a = ints(j["a"]), b = ints(j["b"]);
            with_form(j["ea"].s, [&](auto* pa) { with_form(j["eb"].s, [&](auto* pb) {
                using A = std::remove_pointer_t<decltype(pa)>; using B = std::remove_pointer_t<decltype(pb)>;
                Exact<A> ba(a); Exact<B> bb(b);
                int sw = 2, ew = 2;
                auto va = ba.view(); auto vb = bb.view();
                guarded([&] { sw = cmp::starts_with(va, vb); });
                guarded([&] { ew = cmp::ends_with(va, vb); });
                w.O().k("op").s("affixraw").k("ea").s(j["ea"].s).k("eb").s(j["eb"].s).k("a"); log_units(w, a);
                w.k("b"); log_units(w, b); w.k("sw").i(sw).k("ew").i(ew).o();
            }); });
        } else if (op == "class") {
            const std::string f = j["f"].s;
            std::uint64_t lo = (std::uint64_t)j["lo"].n, hi = (std::uint64_t)j["hi"].n;
            unsigned r = unsigned(j["radix"].n);
            Runs runs;
            if (f == "fits_in_7_bits") runs = scan([](std::uint64_t v) { return cmp::fits_in_7_bits((char32_t)v); }, lo, hi);
            else if (f == "is_standalone_byte") runs = scan([](std::uint64_t v) { return cmp::is_standalone_byte((char8_t)v); }, lo, hi);
            else if (f == "is_leading_byte") runs = scan([](std::uint64_t v) { return cmp::is_leading_byte((char8_t)v); }, lo, hi);
            else if (f == "is_trailing_byte") runs = scan([](std::uint64_t v) { return cmp::is_trailing_byte((char8_t)v); }, lo, hi);
            else if (f == "is_leading_surrogate") runs = scan([](std::uint64_t v) { return cmp::is_leading_surrogate((char16_t)v); }, lo, hi);
            else if (f == "is_trailing_surrogate") runs = scan([](std::uint64_t v) { return cmp::is_trailing_surrogate((char16_t)v); }, lo, hi);
            else if (f == "is_surrogate") runs = scan([](std::uint64_t v) { return cmp::is_surrogate((char32_t)v); }, lo, hi);
            else if (f == "is_code_point_valid") runs = scan([](std::uint64_t v) { return cmp::is_code_point_valid((char32_t)v); }, lo, hi);
            else if (f == "is_whitespace") runs = scan([](std::uint64_t v) { return cmp::is_whitespace((char32_t)v); }, lo, hi);
            else if (f == "is_radix_digit") runs = scan([r](std::uint64_t v) { return cmp::is_radix_digit((char32_t)v, r); }, lo, hi);
            else std::_Exit(3);
            w.O().k("op").s("class").k("f").s(f).k("radix").i(r)
                .k("lo").A().i(lo >> 16).i(lo & 0xffff).a().k("hi").A().i(hi >> 16).i(hi & 0xffff).a().k("runs").A();
            for (auto& q : runs) w.A().i(q.first >> 16).i(q.first & 0xffff).i(q.second >> 16).i(q.second & 0xffff).a();
            w.a().o();
        } else if (op == "size") {
            auto in = ints(j["in"]);
            for (const char* f : {"c", "u8", "u16", "u32", "w"}) with_form(f, [&](auto* p) {
                using S = std::remove_pointer_t<decltype(p)>;
                auto z = in; z.push_back(0);
                Exact<S> t(z);
                const S* q = t.p.get();
                st<S> s(q, in.size());
                for (int k = 0; k < 3; ++k) {
                    std::size_t n = k == 0 ? cmp::string_size(q) : k == 1 ? cmp::string_size(s) : cmp::string_size(sv<S>(q, in.size()));
                    w.O().k("op").s("size").k("in"); log_units(w, in); w.k("n").i((long long)n).o();
                }
            });
        } else std::_Exit(3);
        w.a().o();
    });
}
