// Small helpers shared by the drivers: JSON in, JSON out, the script loop.
#pragma once
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unistd.h>
#include <vector>

struct J {
    enum K { nul, num, str, arr, obj } k{nul};
    long long n{0};
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    const J& operator[](const char* key) const {
        auto i = o.find(key);
        if (i == o.end()) { std::fprintf(stderr, "script: no field %s\n", key); std::_Exit(3); }
        return i->second;
    }
    bool has(const char* key) const { return o.count(key) != 0; }
    const J& operator[](std::size_t i) const { if (i >= a.size()) { std::fprintf(stderr, "script: index\n"); std::_Exit(3); } return a[i]; }
    const J& operator[](int i) const { return (*this)[std::size_t(i)]; }
    std::size_t size() const { return a.size(); }
};

struct JParser {
    const char* p;
    const char* e;
    [[noreturn]] void bad() { std::fprintf(stderr, "script: bad JSON at %.40s\n", p); std::_Exit(3); }
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    J parse() {
        ws();
        J j;
        if (p >= e) bad();
        if (*p == '{') {
            j.k = J::obj; ++p; ws();
            if (*p == '}') { ++p; return j; }
            for (;;) {
                ws(); J key = parse(); ws();
                if (*p != ':') bad();
                ++p;
                j.o[key.s] = parse(); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return j; }
                bad();
            }
        }
        if (*p == '[') {
            j.k = J::arr; ++p; ws();
            if (*p == ']') { ++p; return j; }
            for (;;) {
                j.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return j; }
                bad();
            }
        }
        if (*p == '"') {
            j.k = J::str; ++p;
            while (p < e && *p != '"') {
                if (*p == '\\') {
                    ++p;
                    switch (*p) {
                    case 'n': j.s += '\n'; break;
                    case 't': j.s += '\t'; break;
                    case 'r': j.s += '\r'; break;
                    case 'u': j.s += char(std::strtol(std::string(p + 1, 4).c_str(), nullptr, 16)); p += 4; break;
                    default: j.s += *p;
                    }
                    ++p;
                } else j.s += *p++;
            }
            ++p;
            return j;
        }
        if (!std::strncmp(p, "true", 4)) { j.k = J::num; j.n = 1; p += 4; return j; }
        if (!std::strncmp(p, "false", 5)) { j.k = J::num; j.n = 0; p += 5; return j; }
        char* q;
        j.k = J::num;
        j.n = std::strtoll(p, &q, 10);
        if (q == p) bad();
        p = q;
        return j;
    }
};

// Output: builds one JSON text.
struct W {
    std::string t;
    bool comma{false};
    W& raw(std::string_view v) { t += v; return *this; }
    void sep() { if (comma) t += ','; comma = true; }
    W& k(const char* key) { sep(); t += '"'; t += key; t += "\":"; comma = false; return *this; }
    W& i(long long v) { sep(); t += std::to_string(v); return *this; }
    W& b(bool v) { sep(); t += v ? "true" : "false"; return *this; }
    W& s(std::string_view v) {
        sep(); t += '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { t += '\\'; t += char(c); }
            else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); t += b; }
            else t += char(c);
        }
        t += '"'; return *this;
    }
    W& O() { sep(); t += '{'; comma = false; return *this; }
    W& o() { t += '}'; comma = true; return *this; }
    W& A() { sep(); t += '['; comma = false; return *this; }
    W& a() { t += ']'; comma = true; return *this; }
    // a sequence of code units, as 32-bit two's complement numbers
    template <typename S> W& units(const S& v) {
        A();
        for (auto c : v) {
            using T = std::remove_cv_t<decltype(c)>;
            if constexpr (sizeof(T) == 1) i((unsigned char)c);
            else if constexpr (sizeof(T) == 2) i((std::uint16_t)c);
            else i((std::int32_t)(std::uint32_t)c);
        }
        return a();
    }
};

// Reads one script per line and prints one trace line per script.
inline int script_loop(const std::function<void(const J&, W&)>& f) {
    const char* lim = std::getenv("VP_LIMIT");
    unsigned limit = lim ? unsigned(std::atoi(lim)) : 20u;
    std::string line;
    FILE* out = fdopen(dup(1), "w");   // the driver's own channel, whatever the code does with stdout
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        JParser p{line.data(), line.data() + line.size()};
        J j = p.parse();
        W w;
        alarm(limit);
        // some scripts run in a locale whose idea of letters differs
        if (j.has("loc")) std::setlocale(LC_ALL, "tr_TR.ISO-8859-9");
        f(j, w);
        if (j.has("loc")) std::setlocale(LC_ALL, "C");
        alarm(0);
        w.t += '\n';
        std::fwrite(w.t.data(), 1, w.t.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
