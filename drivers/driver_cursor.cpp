// Drives by_code_point iterators through generated histories, in one encoding per execution.
#include "common.hpp"
#include <iterator>
#include <optional>
#include <ranges>
#include <cmp/unicode/algorithms.hpp>
template <typename T> std::basic_string<T> encode(const std::vector<long long>& cps) {
    std::basic_string<T> r;
    for (long long c : cps) {
        if constexpr (std::is_same_v<T, char8_t>) {
            if (c < 0x80) r += T(c);
            else if (c < 0x800) { r += T(0xC0 + c / 64); r += T(0x80 + c % 64); }
            else if (c < 0x10000) { r += T(0xE0 + c / 4096); r += T(0x80 + c / 64 % 64); r += T(0x80 + c % 64); }
            else { r += T(0xF0 + c / 262144); r += T(0x80 + c / 4096 % 64); r += T(0x80 + c / 64 % 64); r += T(0x80 + c % 64); }
        } else if constexpr (std::is_same_v<T, char16_t>) {
            if (c < 0x10000) r += T(c);
            else { r += T(0xD800 + (c - 0x10000) / 1024); r += T(0xDC00 + (c - 0x10000) % 1024); }
        } else r += T(c);
    }
    return r;
}
template <typename F> std::string guarded(F f) {
    try { f(); return ""; }
    catch (const cmp::invalid_unicode_encoding&) { return "invalid_unicode_encoding"; }
    catch (const cmp::iterated_past_end&) { return "iterated_past_end"; }
    catch (...) { return "unknown"; }
}
template <typename It, bool rev> void run(W& w, const J& ops, It b, It e, std::size_t len, bool strict) {
    It it = b;
    w.k("ev").A();
    for (auto& op : ops.a) {
        std::string o = op[0].s;
        long long n = op[1].n;
        const bool std_way = o == "radd" || o == "rsub";        // the same move, made by the standard library
        if (std_way) o = o == "radd" ? "add" : "sub";
        std::vector<long long> old, held;
        // beyond the end only the strict encodings define ++
        if ((o == "inc" || o == "postinc") && it == e && (!strict || rev)) continue;
        if (o == "over" && (!strict || rev)) continue;
        // what was dereferenced before the move is used after it
        const bool hold = !(it == e);
        std::optional<std::remove_cvref_t<decltype(*it)>> kept;
        std::string hx = guarded([&] { if (hold) kept.emplace(*it); });
        std::string x = guarded([&] {
            if (std_way) std::ranges::advance(it, o == "add" ? n : -n);
            else if (o == "at") { it = b; for (long long i = 0; i < n; ++i) ++it; }
            else if (o == "inc") { It& r = ++it; if (&r != &it) throw 1; }
            else if (o == "dec") { It& r = --it; if (&r != &it) throw 1; }
            else if (o == "postinc") { It q = it++; if (!(q == e)) old.push_back((char32_t)*q); }
            else if (o == "postdec") { It q = it--; if (!(q == e)) old.push_back((char32_t)*q); }
            else if (o == "add") it += n;
            else if (o == "over") { It q = it; q += n; }
            else if (o == "sub") it -= n;
            else if (o == "plus") it = it + n;
            else if (o == "lplus") { if constexpr (rev) it = it + n; else it = n + it; }
            else if (o == "minus") it = it - n;
            else if (o == "lminus") { if constexpr (rev) it = it - n; else it = n - it; }
            else std::_Exit(3);
        });
        if (hx.empty()) hx = guarded([&] { if (hold) held.push_back((char32_t)*kept); });
        long long p = 0;
        It walk = b;
        std::string wx = guarded([&] { while (!(walk == it)) { if (p > (long long)len) { p = -1; break; } ++walk; ++p; } });
        if (!wx.empty()) p = -2;
        std::vector<long long> here;
        std::string dx;
        bool at_end = it == e;
        if (rev && at_end) dx = "iterated_past_end";    // reverse end: nothing to observe, *rend would step before the text
        else dx = guarded([&] { here.push_back((char32_t)*it); });
        w.O().k("op").s(o).k("n").i(n).k("x").s(x).k("p").i(p).k("here").units(std::vector<char32_t>(here.begin(), here.end()))
            .k("old").units(std::vector<char32_t>(old.begin(), old.end())).k("dx").s(dx)
            .k("held").units(std::vector<char32_t>(held.begin(), held.end())).k("hx").s(hx)
            .k("eb").b(it == b).k("ee").b(it == e).k("ne").b(it != b).o();
    }
    w.a();
}
template <typename T> void go(W& w, const J& j, const char* form, bool strict) {
    std::vector<long long> t;
    for (auto& x : j["txt"].a) t.push_back(x.n);
    auto s = encode<T>(t);
    std::unique_ptr<T[]> buf(new T[s.size()]);      // exact size: reads outside are caught
    std::copy(s.begin(), s.end(), buf.get());
    using R = cmp::by_code_point<T>;
    // the range is a view: however it was made, and whether or not it is still there, its iterators are good
    const std::basic_string_view<T> view(buf.get(), s.size());
    std::optional<R> q{R{view}};
    R r;
    switch (j["mk"].n) {
        case 0: r = R{view}; break;
        case 1: { R a{view}; R b{a}; r = b; break; }
        case 2: { R a{view}; R b{std::move(a)}; r = std::move(b); break; }
        default: r = *q;
    }
    bool rev = j["rev"].n != 0;
    w.O().k("form").s(form).k("rev").i(rev).k("txt").units(std::vector<char32_t>(t.begin(), t.end()));
    bool c = j["c"].n != 0;
    R& from = j["mk"].n == 4 ? *q : r;
    auto b = from.begin(), e = from.end();
    auto cb = from.cbegin(), ce = from.cend();
    auto rb = from.crbegin(), re = from.crend();
    q.reset();
    if (!rev) {
        if (c) run<typename R::const_iterator, false>(w, j["ops"], cb, ce, t.size(), strict);
        else run<typename R::iterator, false>(w, j["ops"], b, e, t.size(), strict);
    } else if (c)
        run<typename R::const_reverse_iterator, true>(w, j["ops"], rb, re, t.size(), strict);
    else
        run<typename R::reverse_iterator, true>(w, j["ops"], std::make_reverse_iterator(e), std::make_reverse_iterator(b), t.size(), strict);
    w.o();
}
int main() {
    return script_loop([](const J& j, W& w) {
        const std::string f = j["form"].s;
        if (f == "c") go<char>(w, j, "c", false);
        else if (f == "u8") go<char8_t>(w, j, "u8", true);
        else if (f == "u16") go<char16_t>(w, j, "u16", true);
        else if (f == "u32") go<char32_t>(w, j, "u32", false);
        else go<wchar_t>(w, j, "w", false);
    });
}
