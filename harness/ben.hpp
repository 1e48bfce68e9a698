// Independent bencode values for the oracles: strict decoder (sorted unique keys, canonical integers) and encoder.
#pragma once
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ben {
struct value {
    enum kind_t { integer, text, list, dict } kind = integer;
    std::int64_t i = 0;
    std::string s;
    std::vector<value> l;
    std::map<std::string, value> d;

    value() = default;
    value(const value&) = default; value(value&&) = default; value& operator=(const value&) = default; value& operator=(value&&) = default;
    value(std::int64_t v) : i(v) { }
    value(std::string v) : kind(text), s(std::move(v)) { }
    value(const char* v) : kind(text), s(v) { }
    static value make_list(std::vector<value> v = {}) { value r; r.kind = list; r.l = std::move(v); return r; }
    static value make_dict(std::map<std::string, value> v = {}) { value r; r.kind = dict; r.d = std::move(v); return r; }
    bool operator==(const value& o) const { return kind == o.kind && i == o.i && s == o.s && l == o.l && d == o.d; }
    bool operator<(const value& o) const { return kind != o.kind ? kind < o.kind : i != o.i ? i < o.i : s != o.s ? s < o.s : l != o.l ? l < o.l : d < o.d; }
    bool operator!=(const value& o) const { return !(*this == o); }
    value& operator[](const std::string& k) { kind = dict; return d[k]; }
    const value* find(const std::string& k) const { if (kind != dict) return nullptr; auto it = d.find(k); return it == d.end() ? nullptr : &it->second; }
};

inline void encode(const value& v, std::string& o)
{
    switch (v.kind) {
    case value::integer: o += 'i' + std::to_string(v.i) + 'e'; break;
    case value::text: o += std::to_string(v.s.size()) + ':' + v.s; break;
    case value::list: o += 'l'; for (auto& x : v.l) encode(x, o); o += 'e'; break;
    case value::dict: o += 'd'; for (auto& [k, x] : v.d) { o += std::to_string(k.size()) + ':' + k; encode(x, o); } o += 'e'; break;
    }
}
inline std::string encode(const value& v) { std::string o; encode(v, o); return o; }

// span: where the value of the given top-level key lies in the input
struct decoder {
    std::string_view in; std::size_t p = 0; std::string err;
    std::map<std::string, std::pair<std::size_t, std::size_t>> top;
    bool fail(const char* e) { if (err.empty()) err = std::string(e) + " at " + std::to_string(p); return false; }
    bool text(std::string& out)
    {
        std::size_t n = 0, b = p;
        while (p < in.size() && in[p] >= '0' && in[p] <= '9') { n = n * 10 + static_cast<std::size_t>(in[p] - '0'); ++p; if (p - b > 15) return fail("length"); }
        if (p == b || (p - b > 1 && in[b] == '0') || p >= in.size() || in[p] != ':') return fail("string");
        ++p;
        if (in.size() - p < n) return fail("short string");
        out.assign(in.substr(p, n)); p += n;
        return true;
    }
    bool parse(value& v, int depth = 0)
    {
        if (p >= in.size()) return fail("end of input");
        char c = in[p];
        if (c == 'i') {
            auto e = in.find('e', p);
            if (e == std::string_view::npos) return fail("integer");
            std::string t(in.substr(p + 1, e - p - 1));
            try { std::size_t used = 0; v.i = std::stoll(t, &used); if (used != t.size() || std::to_string(v.i) != t) return fail("integer form"); } catch (const std::exception&) { return fail("integer"); }
            v.kind = value::integer; p = e + 1; return true;
        }
        if (c >= '0' && c <= '9') { v.kind = value::text; return text(v.s); }
        if (c == 'l') {
            v.kind = value::list; ++p;
            while (p < in.size() && in[p] != 'e') { v.l.emplace_back(); if (!parse(v.l.back(), depth + 1)) return false; }
            if (p >= in.size()) return fail("list");
            ++p; return true;
        }
        if (c == 'd') {
            v.kind = value::dict; ++p;
            std::string last; bool first = true;
            while (p < in.size() && in[p] != 'e') {
                std::string k; if (!text(k)) return false;
                if (!first && !(last < k)) return fail("keys not sorted");
                first = false; last = k;
                auto b = p;
                if (!parse(v.d[k], depth + 1)) return false;
                if (depth == 0) top[k] = {b, p - b};
            }
            if (p >= in.size()) return fail("dict");
            ++p; return true;
        }
        return fail("type");
    }
};
inline std::optional<value> decode(std::string_view s, std::string* err = nullptr, std::map<std::string, std::pair<std::size_t, std::size_t>>* top = nullptr)
{
    decoder d{s, 0, {}, {}}; value v;
    bool ok = d.parse(v) && (d.p == s.size() || d.fail("trailing bytes"));
    if (err) *err = d.err;
    if (top) *top = d.top;
    if (!ok) return std::nullopt;
    return v;
}
}
