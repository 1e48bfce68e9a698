// Stand-in for github.com/fbdtemme/bencode (not installed in this sandbox): the part of its
// API that dottorrent uses, with the same observable behaviour. bvalue owns its data, bview
// points into the decoded buffer; both are decoded by one strict parser and encoded by one
// canonical encoder (dictionary keys in byte order).
#pragma once
#include <algorithm>
#include <array>
#include <charconv>
#include <compare>
#include <concepts>
#include <cstdint>
#include <deque>
#include <filesystem>
#include <functional>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <set>
#include <span>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <gsl-lite/gsl-lite.hpp>

namespace bencode {

struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct bad_access : exception { using exception::exception; bad_access() : exception("bad access") {} };
struct bad_conversion : exception { using exception::exception; };
struct out_of_range : exception { using exception::exception; };
struct syntax_error : exception { using exception::exception; };
struct decoding_error : exception { using exception::exception; };
struct encoding_error : exception { using exception::exception; };

enum class btype { uninitialized, integer, string, list, dict };
enum class bencode_type { uninitialized, integer, string, list, dict };

template <typename T> struct customization_point_type {};
template <typename T> inline constexpr customization_point_type<T> customization_for {};

template <typename T>
concept event_consumer = requires(T& c, std::int64_t i, std::string_view s) {
    c.integer(i); c.string(s);
    c.list_begin(); c.list_item(); c.list_end();
    c.dict_begin(); c.dict_key(); c.dict_value(); c.dict_end();
};

template <typename T> struct serialization_traits {};
template <typename T> concept has_serialization_traits = requires { serialization_traits<T>::type; };

class bvalue;
class bview;

template <typename T> concept bvalue_or_bview = std::same_as<std::remove_cvref_t<T>, bvalue> || std::same_as<std::remove_cvref_t<T>, bview>;

// -------------------------------------------------------------------------------------------
class bvalue {
public:
    using integer_type = std::int64_t;
    using string_type = std::string;
    using list_type = std::vector<bvalue>;
    using dict_type = std::map<std::string, bvalue, std::less<>>;

    bvalue() = default;
    bvalue(const bvalue&) = default;
    bvalue(bvalue&&) = default;
    bvalue& operator=(const bvalue&) = default;
    bvalue& operator=(bvalue&&) = default;

    bvalue(btype t);
    template <std::integral T> bvalue(T v) : v_(static_cast<std::int64_t>(v)) {}
    bvalue(std::string s) : v_(std::move(s)) {}
    bvalue(const char* s) : v_(std::string(s)) {}
    bvalue(std::string_view s) : v_(std::string(s)) {}
    bvalue(std::span<const std::byte> s) : v_(std::string(reinterpret_cast<const char*>(s.data()), s.size())) {}
    bvalue(list_type l);
    bvalue(dict_type d);
    explicit bvalue(const bview& v);
    template <typename T> requires (has_serialization_traits<std::remove_cvref_t<T>> && !bvalue_or_bview<T>)
    bvalue(const T& v);

    template <typename T> requires std::constructible_from<bvalue, T>
    bvalue& operator=(T&& v) { *this = bvalue(std::forward<T>(v)); return *this; }

    btype type() const noexcept { return static_cast<btype>(v_.index()); }
    bvalue& operator[](const std::string& k);
    bvalue& operator[](std::string_view k);
    bvalue& operator[](const char* k);
    bvalue& at(std::string_view k);
    const bvalue& at(std::string_view k) const;

    template <std::integral I> const bvalue& at(I i) const { if (!list_ptr()) throw bad_access("not a list"); return list_ptr()->at(std::size_t(i)); }
    template <std::integral I> bvalue& at(I i) { if (!list_ptr()) throw bad_access("not a list"); return list_ptr()->at(std::size_t(i)); }
    std::size_t size() const { return list_ptr() ? list_ptr()->size() : dict_ptr() ? dict_ptr()->size() : 0; }

    bool empty() const { return size() == 0; }
    bool contains(std::string_view k) const { return dict_ptr() && dict_ptr()->find(k) != dict_ptr()->end(); }
    template <typename T> void push_back(T&& v) { if (v_.index() == 0) v_.emplace<3>(); if (!list_ptr()) throw bad_access("not a list"); list_ptr()->push_back(bvalue(std::forward<T>(v))); }
    template <typename T> void emplace_back(T&& v) { push_back(std::forward<T>(v)); }

    bool operator==(const bvalue& o) const;

    std::int64_t* integer_ptr() { return std::get_if<1>(&v_); }
    std::string* string_ptr() { return std::get_if<2>(&v_); }
    list_type* list_ptr();
    dict_type* dict_ptr();
    const std::int64_t* integer_ptr() const { return std::get_if<1>(&v_); }
    const std::string* string_ptr() const { return std::get_if<2>(&v_); }
    const list_type* list_ptr() const;
    const dict_type* dict_ptr() const;

private:
    struct box_list; struct box_dict;
    template <typename T> struct box {
        std::unique_ptr<T> p;
        box() : p(std::make_unique<T>()) {}
        explicit box(T t) : p(std::make_unique<T>(std::move(t))) {}
        box(const box& o) : p(std::make_unique<T>(*o.p)) {}
        box(box&& o) : p(std::make_unique<T>(std::move(*o.p))) {}
        box& operator=(const box& o) { auto n = std::make_unique<T>(*o.p); p = std::move(n); return *this; }
        box& operator=(box&& o) { std::swap(p, o.p); return *this; }
    };
    std::variant<std::monostate, std::int64_t, std::string, box<std::vector<bvalue>>, box<std::map<std::string, bvalue, std::less<>>>> v_;
};

inline bvalue::bvalue(list_type l) : v_(std::in_place_index<3>, std::move(l)) {}
inline bvalue::bvalue(dict_type d) : v_(std::in_place_index<4>, std::move(d)) {}
inline bvalue::bvalue(btype t)
{
    switch (t) {
    case btype::integer: v_ = std::int64_t(0); break;
    case btype::string: v_ = std::string(); break;
    case btype::list: v_.emplace<3>(); break;
    case btype::dict: v_.emplace<4>(); break;
    default: break;
    }
}
inline bvalue::list_type* bvalue::list_ptr() { auto* b = std::get_if<3>(&v_); return b ? b->p.get() : nullptr; }
inline bvalue::dict_type* bvalue::dict_ptr() { auto* b = std::get_if<4>(&v_); return b ? b->p.get() : nullptr; }
inline const bvalue::list_type* bvalue::list_ptr() const { auto* b = std::get_if<3>(&v_); return b ? b->p.get() : nullptr; }
inline const bvalue::dict_type* bvalue::dict_ptr() const { auto* b = std::get_if<4>(&v_); return b ? b->p.get() : nullptr; }
inline bool bvalue::operator==(const bvalue& o) const
{
    if (v_.index() != o.v_.index()) return false;
    switch (v_.index()) {
    case 1: return *integer_ptr() == *o.integer_ptr();
    case 2: return *string_ptr() == *o.string_ptr();
    case 3: return *list_ptr() == *o.list_ptr();
    case 4: return *dict_ptr() == *o.dict_ptr();
    default: return true;
    }
}
inline bvalue& bvalue::operator[](const std::string& k)
{
    if (v_.index() == 0) v_.emplace<4>();
    if (!dict_ptr()) throw bad_access("not a dict");
    return (*dict_ptr())[k];
}
inline bvalue& bvalue::operator[](std::string_view k) { return (*this)[std::string(k)]; }
inline bvalue& bvalue::operator[](const char* k) { return (*this)[std::string(k)]; }
inline bvalue& bvalue::at(std::string_view k)
{ if (!dict_ptr()) throw bad_access("not a dict"); auto it = dict_ptr()->find(k); if (it == dict_ptr()->end()) throw out_of_range("key"); return it->second; }
inline const bvalue& bvalue::at(std::string_view k) const { return const_cast<bvalue*>(this)->at(k); }

// -------------------------------------------------------------------------------------------
namespace detail { struct bview_node; }

class bview {
public:
    using integer_type = std::int64_t;
    using string_type = std::string_view;
    using list_type = std::vector<bview>;
    using dict_type = std::map<std::string_view, bview, std::less<>>;
    bview() = default;
    explicit bview(const detail::bview_node* n) : n_(n) {}
    btype type() const noexcept;
    bool operator==(const bview& o) const;
    const detail::bview_node* node() const noexcept { return n_; }
private:
    const detail::bview_node* n_ = nullptr;
};

namespace detail {
struct bview_node {
    btype type = btype::uninitialized;
    std::int64_t integer = 0;
    std::string_view string {};
    std::vector<bview> list {};
    std::map<std::string_view, bview, std::less<>> dict {};
};
}
inline btype bview::type() const noexcept { return n_ ? n_->type : btype::uninitialized; }
inline bool bview::operator==(const bview& o) const
{
    if (type() != o.type()) return false;
    switch (type()) {
    case btype::integer: return n_->integer == o.n_->integer;
    case btype::string: return n_->string == o.n_->string;
    case btype::list: return n_->list == o.n_->list;
    case btype::dict: return n_->dict == o.n_->dict;
    default: return true;
    }
}

// -------------------------------------------------------------------------------------------
inline bool holds_integer(const bvalue& v) noexcept { return v.integer_ptr(); }
inline bool holds_string(const bvalue& v) noexcept { return v.string_ptr(); }
inline bool holds_list(const bvalue& v) noexcept { return v.list_ptr(); }
inline bool holds_dict(const bvalue& v) noexcept { return v.dict_ptr(); }
inline bool holds_integer(const bview& v) noexcept { return v.type() == btype::integer; }
inline bool holds_string(const bview& v) noexcept { return v.type() == btype::string; }
inline bool holds_list(const bview& v) noexcept { return v.type() == btype::list; }
inline bool holds_dict(const bview& v) noexcept { return v.type() == btype::dict; }

template <bvalue_or_bview V> bool is_integer(const V& v) noexcept { return holds_integer(v); }
template <bvalue_or_bview V> bool is_string(const V& v) noexcept { return holds_string(v); }
template <bvalue_or_bview V> bool is_list(const V& v) noexcept { return holds_list(v); }
template <bvalue_or_bview V> bool is_dict(const V& v) noexcept { return holds_dict(v); }
#define VP_BENCODE_GET(NAME, T, PTR) \
inline T* get_##NAME##_if(bvalue* v) noexcept { return v ? v->PTR() : nullptr; } \
inline const T* get_##NAME##_if(const bvalue* v) noexcept { return v ? v->PTR() : nullptr; } \
inline T& get_##NAME(bvalue& v) { if (auto* p = v.PTR()) return *p; throw bad_access("type is not " #NAME); } \
inline const T& get_##NAME(const bvalue& v) { if (auto* p = v.PTR()) return *p; throw bad_access("type is not " #NAME); } \
inline T&& get_##NAME(bvalue&& v) { if (auto* p = v.PTR()) return std::move(*p); throw bad_access("type is not " #NAME); }
VP_BENCODE_GET(integer, bvalue::integer_type, integer_ptr)
VP_BENCODE_GET(string, bvalue::string_type, string_ptr)
VP_BENCODE_GET(list, bvalue::list_type, list_ptr)
VP_BENCODE_GET(dict, bvalue::dict_type, dict_ptr)
#undef VP_BENCODE_GET
#define VP_BENCODE_GET(NAME, T) \
inline const T* get_##NAME##_if(const bview* v) noexcept { return v && v->type() == btype::NAME ? &v->node()->NAME : nullptr; } \
inline const T& get_##NAME(const bview& v) { if (v.type() == btype::NAME) return v.node()->NAME; throw bad_access("type is not " #NAME); }
VP_BENCODE_GET(integer, bview::integer_type)
VP_BENCODE_GET(string, bview::string_type)
VP_BENCODE_GET(list, bview::list_type)
VP_BENCODE_GET(dict, bview::dict_type)
#undef VP_BENCODE_GET

template <typename T> requires (std::integral<T>)
inline bool operator==(const bvalue& a, const T& b) { return a.integer_ptr() && *a.integer_ptr() == std::int64_t(b); }
inline bool operator==(const bvalue& a, std::string_view b) { return a.string_ptr() && *a.string_ptr() == b; }
inline bool operator==(const bvalue& a, const std::string& b) { return a.string_ptr() && *a.string_ptr() == b; }
inline bool operator==(const bvalue& a, const char* b) { return a.string_ptr() && *a.string_ptr() == b; }

template <typename T, bvalue_or_bview V>
T get_as(const V& v)
{
    if constexpr (std::integral<T>) { return static_cast<T>(get_integer(v)); }
    else if constexpr (std::constructible_from<T, std::string_view>) { return T(std::string_view(get_string(v))); }
    else if constexpr (requires(T t) { t.emplace_back(typename T::value_type{}); }) {
        T r; for (const auto& e : get_list(v)) r.push_back(get_as<typename T::value_type>(e)); return r;
    } else {
        T r; for (const auto& e : get_list(v)) r.insert(get_as<typename T::value_type>(e)); return r;
    }
}

// -------------------------------------------------------------------------------------------
// producers
template <event_consumer EC, std::integral T>
constexpr void bencode_connect(customization_point_type<T>, EC& c, const T& v) { c.integer(static_cast<std::int64_t>(v)); }
template <event_consumer EC> void bencode_connect(customization_point_type<std::string>, EC& c, const std::string& v) { c.string(std::string_view(v)); }
template <event_consumer EC> void bencode_connect(customization_point_type<std::string_view>, EC& c, const std::string_view& v) { c.string(v); }
template <event_consumer EC> void bencode_connect(customization_point_type<bvalue>, EC& c, const bvalue& v);
template <event_consumer EC> void bencode_connect(customization_point_type<bview>, EC& c, const bview& v);

template <event_consumer EC, typename T>
void connect(EC& c, const T& v)
{
    if constexpr (std::constructible_from<std::string_view, const T&> && std::is_array_v<T>)
        c.string(std::string_view(v));
    else
        bencode_connect(customization_point_type<T>{}, c, v);
}
template <event_consumer EC, typename T>
void connect(EC&& c, const T& v) requires std::is_rvalue_reference_v<EC&&> { connect(c, v); }

namespace detail {
template <event_consumer EC, typename R>
void connect_range(EC& c, const R& v)
{
    c.list_begin();
    for (const auto& e : v) { bencode::connect(c, e); c.list_item(); }
    c.list_end();
}
template <event_consumer EC, typename V>
void connect_value(EC& c, const V& v)
{
    switch (v.type()) {
    case btype::integer: c.integer(get_integer(v)); break;
    case btype::string: c.string(std::string_view(get_string(v))); break;
    case btype::list:
        c.list_begin();
        for (const auto& e : get_list(v)) { connect_value(c, e); c.list_item(); }
        c.list_end();
        break;
    case btype::dict:
        c.dict_begin();
        for (const auto& [k, e] : get_dict(v)) { c.string(std::string_view(k)); c.dict_key(); connect_value(c, e); c.dict_value(); }
        c.dict_end();
        break;
    default: throw encoding_error("uninitialized bvalue");
    }
}
}
template <event_consumer EC> void bencode_connect(customization_point_type<bvalue>, EC& c, const bvalue& v) { detail::connect_value(c, v); }
template <event_consumer EC> void bencode_connect(customization_point_type<bview>, EC& c, const bview& v) { detail::connect_value(c, v); }
template <event_consumer EC, typename T, typename A> void bencode_connect(customization_point_type<std::vector<T, A>>, EC& c, const std::vector<T, A>& v) { detail::connect_range(c, v); }
template <event_consumer EC, typename T, typename H, typename E, typename A> void bencode_connect(customization_point_type<std::unordered_set<T, H, E, A>>, EC& c, const std::unordered_set<T, H, E, A>& v) { detail::connect_range(c, v); }
template <event_consumer EC, typename T, typename C, typename A> void bencode_connect(customization_point_type<std::set<T, C, A>>, EC& c, const std::set<T, C, A>& v) { detail::connect_range(c, v); }
template <event_consumer EC, std::size_t N> void bencode_connect(customization_point_type<std::span<const std::byte, N>>, EC& c, const std::span<const std::byte, N>& v)
{ c.string(std::string_view(reinterpret_cast<const char*>(v.data()), v.size())); }
template <event_consumer EC, std::size_t N> void bencode_connect(customization_point_type<std::span<std::byte, N>>, EC& c, const std::span<std::byte, N>& v)
{ c.string(std::string_view(reinterpret_cast<const char*>(v.data()), v.size())); }
} // namespace bencode

#define VP_BENCODE_SERIALIZES_TO(KIND, ...) namespace bencode { template <> struct serialization_traits<__VA_ARGS__> { static constexpr bencode_type type = bencode_type::KIND; }; }
#define BENCODE_SERIALIZES_TO_LIST(...) VP_BENCODE_SERIALIZES_TO(list, __VA_ARGS__)
#define BENCODE_SERIALIZES_TO_STRING(...) VP_BENCODE_SERIALIZES_TO(string, __VA_ARGS__)
#define BENCODE_SERIALIZES_TO_INTEGER(...) VP_BENCODE_SERIALIZES_TO(integer, __VA_ARGS__)
#define BENCODE_SERIALIZES_TO_DICT(...) VP_BENCODE_SERIALIZES_TO(dict, __VA_ARGS__)

namespace bencode {
template <typename T, typename A> struct serialization_traits<std::vector<T, A>> { static constexpr bencode_type type = bencode_type::list; };
template <typename T, typename H, typename E, typename A> struct serialization_traits<std::unordered_set<T, H, E, A>> { static constexpr bencode_type type = bencode_type::list; };
template <typename T, typename C, typename A> struct serialization_traits<std::set<T, C, A>> { static constexpr bencode_type type = bencode_type::list; };

namespace events {
// builds a bvalue
class to_bvalue {
public:
    void integer(std::int64_t v) { stack_.emplace_back(bvalue(v)); }
    void string(std::string_view v) { stack_.emplace_back(bvalue(v)); }
    void list_begin(std::optional<std::size_t> = std::nullopt) { stack_.emplace_back(bvalue(btype::list)); }
    void list_item() { auto v = std::move(stack_.back()); stack_.pop_back(); get_list(stack_.back()).push_back(std::move(v)); }
    void list_end() {}
    void dict_begin(std::optional<std::size_t> = std::nullopt) { stack_.emplace_back(bvalue(btype::dict)); }
    void dict_key() {}
    void dict_value()
    {
        auto v = std::move(stack_.back()); stack_.pop_back();
        auto k = std::move(stack_.back()); stack_.pop_back();
        get_dict(stack_.back()).insert_or_assign(std::move(get_string(k)), std::move(v));
    }
    void dict_end() {}
    void error(const std::string& = {}) {}
    bvalue& value() { return stack_.back(); }
private:
    std::deque<bvalue> stack_;
};

// writes bencode
template <typename Out>
class encode_to {
public:
    explicit encode_to(Out o) : out_(std::move(o)) {}
    void integer(std::int64_t v) { put("i"); put(std::to_string(v)); put("e"); }
    void string(std::string_view v) { put(std::to_string(v.size())); put(":"); put(v); }
    void list_begin(std::optional<std::size_t> = std::nullopt) { put("l"); }
    void list_item() {}
    void list_end() { put("e"); }
    void dict_begin(std::optional<std::size_t> = std::nullopt) { put("d"); }
    void dict_key() {}
    void dict_value() {}
    void dict_end() { put("e"); }
    void error(const std::string& = {}) {}
    Out out() { return out_; }
private:
    void put(std::string_view s) { for (char c : s) *out_++ = c; }
    Out out_;
};
} // namespace events

template <typename T> requires (has_serialization_traits<std::remove_cvref_t<T>> && !bvalue_or_bview<T>)
bvalue::bvalue(const T& v)
{
    events::to_bvalue c;
    bencode::connect(c, v);
    *this = std::move(c.value());
}
inline bvalue::bvalue(const bview& v)
{
    events::to_bvalue c;
    bencode::connect(c, v);
    *this = std::move(c.value());
}

template <typename Out, typename T>
Out encode_to(Out out, const T& v)
{
    events::encode_to<Out> e(std::move(out));
    bencode::connect(e, v);
    return e.out();
}
template <typename T>
std::string encode(const T& v)
{
    std::string s;
    bencode::encode_to(std::back_inserter(s), v);
    return s;
}

// -------------------------------------------------------------------------------------------
// decoding
class descriptor_table {
public:
    descriptor_table() = default;
    bview get_root() const { return bview(root_); }
    std::shared_ptr<std::deque<detail::bview_node>> nodes_ = std::make_shared<std::deque<detail::bview_node>>();
    const detail::bview_node* root_ = nullptr;
};

namespace detail {
struct decoder {
    std::string_view s; std::size_t p = 0; std::deque<bview_node>& nodes; int depth = 0;
    [[noreturn]] void fail(const char* m) { throw decoding_error(fmt::format("{} at position {}", m, p)); }
    char peek() { if (p >= s.size()) fail("unexpected end of input"); return s[p]; }
    std::string_view str()
    {
        std::size_t n = 0; std::size_t start = p;
        while (peek() != ':') {
            char c = s[p];
            if (c < '0' || c > '9') fail("invalid string length");
            if (n > (std::numeric_limits<std::size_t>::max() - 9) / 10) fail("string length overflow");
            n = n * 10 + std::size_t(c - '0'); ++p;
        }
        if (p == start) fail("missing string length");
        ++p;
        if (n > s.size() - p) fail("unexpected end of input");
        auto r = s.substr(p, n); p += n;
        return r;
    }
    const bview_node* value()
    {
        auto& n = nodes.emplace_back();
        char c = peek();
        if (c >= '0' && c <= '9') { n.type = btype::string; n.string = str(); return &n; }
        if (c == 'i') {
            ++p;
            std::size_t start = p;
            if (peek() == '-') ++p;
            std::size_t digits = p;
            while (peek() != 'e') { if (s[p] < '0' || s[p] > '9') fail("invalid integer"); ++p; }
            if (p == digits) fail("empty integer");
            if (s[digits] == '0' && (p - digits > 1 || digits != start)) fail("leading zero");
            auto r = std::from_chars(s.data() + start, s.data() + p, n.integer);
            if (r.ec != std::errc{}) fail("integer out of range");
            ++p; n.type = btype::integer; return &n;
        }
        if (c == 'l' || c == 'd') {
            if (++depth > 1024) fail("nesting too deep");
            ++p;
            n.type = c == 'l' ? btype::list : btype::dict;
            while (peek() != 'e') {
                if (c == 'l') n.list.emplace_back(bview(value()));
                else {
                    if (s[p] < '0' || s[p] > '9') fail("expected string key");
                    auto k = str();
                    n.dict.emplace(k, bview(value()));
                }
            }
            ++p; --depth;
            return &n;
        }
        fail("unexpected character");
    }
};
}

inline descriptor_table decode_view(std::string_view s)
{
    descriptor_table t;
    detail::decoder d { s, 0, *t.nodes_ };
    t.root_ = d.value();
    if (d.p != s.size()) throw decoding_error("trailing data");
    return t;
}
inline bvalue decode_value(std::string_view s) { auto t = decode_view(s); return bvalue(t.get_root()); }
inline bvalue decode_value(std::istream& is)
{
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    return decode_value(std::string_view(s));
}
} // namespace bencode
