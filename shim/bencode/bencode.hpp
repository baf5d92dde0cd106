// Stand-in for fbdtemme/bencode (not installed in this sandbox): the part of its interface that
// dottorrent uses.  bvalue owns its strings, bview refers to the decoded buffer.
#pragma once
#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <functional>
#include <iterator>
#include <istream>
#include <list>
#include <map>
#include <optional>
#include <ostream>
#include <set>
#include <span>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace bencode {

enum class btype { uninitialized, integer, string, list, dict };
using bencode_type = btype;

inline constexpr std::string_view to_string(btype t)
{
    switch (t) {
    case btype::uninitialized: return "uninitialized";
    case btype::integer: return "integer";
    case btype::string: return "string";
    case btype::list: return "list";
    default: return "dict";
    }
}

struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct bad_access : exception { using exception::exception; bad_access() : exception("bad access") {} };
struct bad_conversion : exception { using exception::exception; };
struct out_of_range : exception { using exception::exception; };
struct parsing_error : exception { using exception::exception; };
struct decoding_error : parsing_error { using parsing_error::parsing_error; };
struct encoding_error : exception { using exception::exception; };
struct syntax_error : exception { using exception::exception; };

template <class T> struct customization_point_type {};
template <class T> struct customization_for {};

/// serialization trait, specialised by the BENCODE_SERIALIZES_TO_* macros
template <class T> struct serializes_to : std::integral_constant<btype, btype::uninitialized> { static constexpr bool set = false; };
template <class T> inline constexpr bool user_serializable = serializes_to<std::remove_cvref_t<T>>::set;

template <class EC>
concept event_consumer = requires(EC& c, std::int64_t i, std::string_view s) {
    c.integer(i); c.string(s);
    c.list_begin(); c.list_item(); c.list_end();
    c.dict_begin(); c.dict_key(); c.dict_value(); c.dict_end();
};

//---------------------------------------------------------------------------------------------
template <class Str> class basic_node;
using bvalue = basic_node<std::string>;
using bview = basic_node<std::string_view>;

template <class T> inline constexpr bool is_node = false;
template <class S> inline constexpr bool is_node<basic_node<S>> = true;
template <class T> concept bvalue_or_bview = is_node<std::remove_cvref_t<T>>;
template <class T> concept basic_bvalue_instantiation = std::same_as<std::remove_cvref_t<T>, bvalue>;

// ---- connect: push a value into an event consumer -----------------------------------------
template <class EC, class T> void connect(EC&& c, const T& v);

namespace detail {
template <class T> concept byte_like = std::same_as<std::remove_cv_t<T>, std::byte> || std::same_as<std::remove_cv_t<T>, unsigned char>
                                       || std::same_as<std::remove_cv_t<T>, char>;
template <class T> concept string_like = std::convertible_to<const T&, std::string_view> && !std::same_as<T, std::filesystem::path>;
template <class T> concept map_like = requires(const T& t) { typename T::key_type; typename T::mapped_type; t.begin(); t.end(); };
template <class T> concept range_like = requires(const T& t) { std::begin(t); std::end(t); };
template <class T> concept byte_range = range_like<T> && requires(const T& t) { requires byte_like<std::remove_cvref_t<decltype(*std::begin(t))>>; std::data(t); };
template <class T> inline constexpr bool is_optional = false;
template <class T> inline constexpr bool is_optional<std::optional<T>> = true;
}

template <class T>
concept serializable = !bvalue_or_bview<T> && !std::same_as<std::remove_cvref_t<T>, btype> &&
    (user_serializable<T> || std::integral<std::remove_cvref_t<T>> || detail::string_like<std::remove_cvref_t<T>>
     || detail::map_like<std::remove_cvref_t<T>> || detail::range_like<std::remove_cvref_t<T>>);

template <class Str>
class basic_node
{
public:
    using integer_type = std::int64_t;
    using string_type = Str;
    using list_type = std::vector<basic_node>;
    using dict_type = std::map<Str, basic_node, std::less<>>;
    using variant_type = std::variant<std::monostate, integer_type, string_type, list_type, dict_type>;

    basic_node() = default;
    basic_node(const basic_node&) = default;
    basic_node(basic_node&&) noexcept = default;
    basic_node& operator=(const basic_node&) = default;
    basic_node& operator=(basic_node&&) noexcept = default;

    basic_node(btype t) { // NOLINT
        switch (t) {
        case btype::integer: v_.template emplace<1>(0); break;
        case btype::string: v_.template emplace<2>(); break;
        case btype::list: v_.template emplace<3>(); break;
        case btype::dict: v_.template emplace<4>(); break;
        default: break;
        }
    }
    basic_node(list_type l) : v_(std::in_place_index<3>, std::move(l)) {}
    basic_node(dict_type d) : v_(std::in_place_index<4>, std::move(d)) {}

    /// bvalue from bview (deep copy)
    template <class S2> requires (!std::same_as<S2, Str> && std::same_as<Str, std::string>)
    basic_node(const basic_node<S2>& o) // NOLINT
    {
        switch (o.type()) {
        case btype::integer: v_.template emplace<1>(std::get<1>(o.storage())); break;
        case btype::string: v_.template emplace<2>(std::get<2>(o.storage())); break;
        case btype::list: { auto& l = v_.template emplace<3>(); for (auto& e : std::get<3>(o.storage())) l.emplace_back(e); break; }
        case btype::dict: { auto& d = v_.template emplace<4>(); for (auto& [k, e] : std::get<4>(o.storage())) d.insert_or_assign(Str(k), basic_node(e)); break; }
        default: break;
        }
    }

    template <serializable T> requires std::same_as<Str, std::string>
    basic_node(const T& t); // NOLINT

    template <serializable T> requires std::same_as<Str, std::string>
    basic_node& operator=(const T& t) { basic_node tmp(t); v_ = std::move(tmp.v_); return *this; }

    btype type() const noexcept { return static_cast<btype>(v_.index()); }
    const variant_type& storage() const noexcept { return v_; }
    variant_type& storage() noexcept { return v_; }

    /// dict access, default-inserting like std::map
    template <class K> requires std::convertible_to<const K&, std::string_view>
    basic_node& operator[](const K& k)
    {
        if (type() == btype::uninitialized) v_.template emplace<4>();
        if (type() != btype::dict) throw bad_access("not a dict");
        return std::get<4>(v_)[Str(std::string_view(k))];
    }
    template <class K> requires std::convertible_to<const K&, std::string_view>
    const basic_node& at(const K& k) const
    {
        if (type() != btype::dict) throw bad_access("not a dict");
        auto it = std::get<4>(v_).find(std::string_view(k));
        if (it == std::get<4>(v_).end()) throw out_of_range("key not found");
        return it->second;
    }
    basic_node& operator[](std::size_t i) { if (type() != btype::list) throw bad_access("not a list"); return std::get<3>(v_)[i]; }
    const basic_node& at(std::size_t i) const { if (type() != btype::list) throw bad_access("not a list"); return std::get<3>(v_).at(i); }

    template <class... A> auto emplace_list(A&&... a) -> list_type& { return v_.template emplace<3>(std::forward<A>(a)...); }
    template <class... A> auto emplace_dict(A&&... a) -> dict_type& { return v_.template emplace<4>(std::forward<A>(a)...); }
    template <class... A> auto emplace_string(A&&... a) -> string_type& { return v_.template emplace<2>(std::forward<A>(a)...); }
    auto emplace_integer(integer_type i) -> integer_type& { return v_.template emplace<1>(i); }
    void push_back(basic_node n) { if (type() != btype::list) throw bad_access("not a list"); std::get<3>(v_).push_back(std::move(n)); }

    friend bool operator==(const basic_node& a, const basic_node& b) { return a.v_ == b.v_; }

private:
    variant_type v_;
};

template <bvalue_or_bview T> bool holds_integer(const T& t) { return t.type() == btype::integer; }
template <bvalue_or_bview T> bool holds_string(const T& t) { return t.type() == btype::string; }
template <bvalue_or_bview T> bool holds_list(const T& t) { return t.type() == btype::list; }
template <bvalue_or_bview T> bool holds_dict(const T& t) { return t.type() == btype::dict; }
template <bvalue_or_bview T> bool is_integer(const T& t) { return t.type() == btype::integer; }
template <bvalue_or_bview T> bool is_string(const T& t) { return t.type() == btype::string; }
template <bvalue_or_bview T> bool is_list(const T& t) { return t.type() == btype::list; }
template <bvalue_or_bview T> bool is_dict(const T& t) { return t.type() == btype::dict; }

namespace detail {
template <std::size_t I, class N> auto& get_alt(N& n)
{
    if (n.storage().index() != I) throw bad_access("bad access: unexpected bencode type");
    return std::get<I>(n.storage());
}
}
template <class S> auto& get_integer(basic_node<S>& n) { return detail::get_alt<1>(n); }
template <class S> auto& get_integer(const basic_node<S>& n) { return detail::get_alt<1>(n); }
template <class S> auto& get_string(basic_node<S>& n) { return detail::get_alt<2>(n); }
template <class S> auto& get_string(const basic_node<S>& n) { return detail::get_alt<2>(n); }
template <class S> auto& get_list(basic_node<S>& n) { return detail::get_alt<3>(n); }
template <class S> auto& get_list(const basic_node<S>& n) { return detail::get_alt<3>(n); }
template <class S> auto& get_dict(basic_node<S>& n) { return detail::get_alt<4>(n); }
template <class S> auto& get_dict(const basic_node<S>& n) { return detail::get_alt<4>(n); }

template <class T, class S> T get_as(const basic_node<S>& n)
{
    if constexpr (std::is_integral_v<T>) return static_cast<T>(get_integer(n));
    else if constexpr (std::is_constructible_v<T, std::string_view>) return T(std::string_view(get_string(n)));
    else { T out; for (const auto& e : get_list(n)) out.insert(out.end(), get_as<typename T::value_type>(e)); return out; }
}
template <class T, class S> std::optional<T> try_get_as(const basic_node<S>& n)
{ try { return get_as<T>(n); } catch (const exception&) { return std::nullopt; } }

// ---- consumers ------------------------------------------------------------------------------
namespace events {

template <std::output_iterator<char> Out>
class encode_to
{
public:
    explicit encode_to(Out o) : out_(o) {}
    void integer(std::int64_t i) { raw("i"); raw(std::to_string(i)); raw("e"); }
    void string(std::string_view s) { raw(std::to_string(s.size())); raw(":"); raw(s); }
    void list_begin(std::optional<std::size_t> = {}) { raw("l"); }
    void list_item() {}
    void list_end() { raw("e"); }
    void dict_begin(std::optional<std::size_t> = {}) { raw("d"); }
    void dict_key() {}
    void dict_value() {}
    void dict_end() { raw("e"); }
private:
    void raw(std::string_view s) { for (char c : s) *out_++ = c; }
    Out out_;
};

class to_bvalue
{
public:
    void integer(std::int64_t i) { put(bvalue_int(i)); }
    void string(std::string_view s) { bvalue v(btype::string); v.emplace_string(s); put(std::move(v)); }
    void list_begin(std::optional<std::size_t> = {}) { stack_.emplace_back(bvalue(btype::list)); }
    void list_item() { auto v = std::move(cur_); std::get<3>(stack_.back().storage()).push_back(std::move(v)); }
    void list_end() { cur_ = std::move(stack_.back()); stack_.pop_back(); }
    void dict_begin(std::optional<std::size_t> = {}) { stack_.emplace_back(bvalue(btype::dict)); }
    void dict_key() { keys_.push_back(std::get<2>(cur_.storage())); }
    void dict_value() { auto v = std::move(cur_); std::get<4>(stack_.back().storage()).insert_or_assign(keys_.back(), std::move(v)); keys_.pop_back(); }
    void dict_end() { list_end(); }
    bvalue value() && { return std::move(cur_); }
private:
    static bvalue bvalue_int(std::int64_t i) { bvalue v(btype::integer); v.emplace_integer(i); return v; }
    void put(bvalue v) { cur_ = std::move(v); }
    std::vector<bvalue> stack_;
    std::vector<std::string> keys_;
    bvalue cur_;
};

/// JSON writer.  Byte strings are written with \u00XX escapes for non-printable bytes.
class encode_json_to
{
public:
    explicit encode_json_to(std::ostream& os) : os_(&os) {}
    void integer(std::int64_t i) { *os_ << i; }
    void string(std::string_view s)
    {
        static const char* hex = "0123456789abcdef";
        *os_ << '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') *os_ << '\\' << c;
            else if (c < 0x20 || c >= 0x7f) *os_ << "\\u00" << hex[c >> 4] << hex[c & 15];
            else *os_ << c;
        }
        *os_ << '"';
    }
    void list_begin(std::optional<std::size_t> = {}) { *os_ << '['; first_.push_back(true); pend(); }
    void list_item() { pending_ = true; }
    void list_end() { finish(']'); }
    void dict_begin(std::optional<std::size_t> = {}) { *os_ << '{'; first_.push_back(true); }
    void dict_key() { *os_ << ':'; }
    void dict_value() { pending_ = true; }
    void dict_end() { finish('}'); }
    bool need_comma() { bool p = pending_; pending_ = false; return p; }
    void comma() { if (need_comma()) *os_ << ','; }
private:
    void pend() { pending_ = false; }
    void finish(char c) { pending_ = false; first_.pop_back(); *os_ << c; }
    std::ostream* os_;
    std::vector<bool> first_;
    bool pending_ = false;
};
} // namespace events

// ---- connect implementation ---------------------------------------------------------------
namespace detail {
template <class EC> void maybe_comma(EC& c) { if constexpr (requires { c.comma(); }) c.comma(); }
}

template <class EC, class T>
void connect(EC&& c, const T& v)
{
    using D = std::remove_cvref_t<T>;
    detail::maybe_comma(c);
    if constexpr (is_node<D>) {
        switch (v.type()) {
        case btype::integer: c.integer(get_integer(v)); break;
        case btype::string: c.string(get_string(v)); break;
        case btype::list:
            c.list_begin();
            for (const auto& e : get_list(v)) { connect(c, e); c.list_item(); }
            c.list_end();
            break;
        case btype::dict:
            c.dict_begin();
            for (const auto& [k, e] : get_dict(v)) {
                detail::maybe_comma(c);
                c.string(k); c.dict_key();
                connect(c, e); c.dict_value();
            }
            c.dict_end();
            break;
        default: throw encoding_error("uninitialized value");
        }
    }
    else if constexpr (user_serializable<D>) bencode_connect(customization_point_type<D>{}, c, v);
    else if constexpr (std::integral<D>) c.integer(static_cast<std::int64_t>(v));
    else if constexpr (detail::string_like<D>) c.string(std::string_view(v));
    else if constexpr (detail::byte_range<D>)
        c.string(std::string_view(reinterpret_cast<const char*>(std::data(v)), std::size(v)));
    else if constexpr (detail::map_like<D>) {
        std::map<std::string, const typename D::mapped_type*> sorted;
        for (const auto& [k, e] : v) sorted.emplace(std::string(std::string_view(k)), &e);
        c.dict_begin();
        for (const auto& [k, e] : sorted) { detail::maybe_comma(c); c.string(k); c.dict_key(); connect(c, *e); c.dict_value(); }
        c.dict_end();
    }
    else {
        c.list_begin();
        for (const auto& e : v) { connect(c, e); c.list_item(); }
        c.list_end();
    }
}

template <class Str>
template <serializable T> requires std::same_as<Str, std::string>
basic_node<Str>::basic_node(const T& t)
{
    events::to_bvalue c;
    connect(c, t);
    *this = std::move(c).value();
}

// ---- encode ------------------------------------------------------------------------------------
template <std::output_iterator<char> Out, class T>
void encode_to(Out out, const T& v) { events::encode_to<Out> e(out); connect(e, v); }
template <class T> void encode_to(std::ostream& os, const T& v) { encode_to(std::ostreambuf_iterator<char>{os}, v); }
template <class T> std::string encode(const T& v) { std::string s; encode_to(std::back_inserter(s), v); return s; }

// ---- decode ------------------------------------------------------------------------------------
namespace detail {
template <class Str>
class decoder
{
public:
    explicit decoder(std::string_view s) : s_(s) {}
    basic_node<Str> root()
    {
        auto v = value(0);
        if (p_ != s_.size()) throw decoding_error("trailing data");
        return v;
    }
private:
    char peek() const { if (p_ >= s_.size()) throw decoding_error("unexpected end of input"); return s_[p_]; }
    std::int64_t number(char end, bool sign)
    {
        std::size_t e = s_.find(end, p_);
        if (e == std::string_view::npos || e == p_) throw decoding_error("bad integer");
        std::int64_t n = 0; bool neg = false; std::size_t i = p_;
        if (sign && s_[i] == '-') { neg = true; ++i; }
        if (i == e) throw decoding_error("bad integer");
        for (; i < e; ++i) {
            if (s_[i] < '0' || s_[i] > '9') throw decoding_error("bad integer");
            if (__builtin_mul_overflow(n, std::int64_t(10), &n) || (neg ? __builtin_sub_overflow(n, std::int64_t(s_[i] - '0'), &n) : __builtin_add_overflow(n, std::int64_t(s_[i] - '0'), &n)))
                throw decoding_error("integer overflow");
        }
        p_ = e + 1;
        return n;
    }
    std::string_view str()
    {
        auto n = number(':', false);
        if (static_cast<std::uint64_t>(n) > s_.size() - p_) throw decoding_error("string exceeds input");
        auto r = s_.substr(p_, static_cast<std::size_t>(n));
        p_ += static_cast<std::size_t>(n);
        return r;
    }
    basic_node<Str> value(int depth)
    {
        if (depth > 1024) throw decoding_error("nesting too deep");
        basic_node<Str> v;
        switch (peek()) {
        case 'i': ++p_; v.emplace_integer(number('e', true)); break;
        case 'l': {
            ++p_; auto& l = v.emplace_list();
            while (peek() != 'e') l.push_back(value(depth + 1));
            ++p_; break;
        }
        case 'd': {
            ++p_; auto& d = v.emplace_dict();
            while (peek() != 'e') { auto k = str(); d.insert_or_assign(Str(k), value(depth + 1)); }
            ++p_; break;
        }
        default: v.emplace_string(str());
        }
        return v;
    }
    std::string_view s_;
    std::size_t p_ = 0;
};
}

inline bvalue decode_value(std::string_view s) { return detail::decoder<std::string>(s).root(); }
inline bvalue decode_value(std::istream& is)
{
    std::string s(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>{});
    return decode_value(std::string_view(s));
}

class descriptor_table
{
public:
    descriptor_table() = default;
    explicit descriptor_table(bview r) : root_(std::move(r)) {}
    const bview& get_root() const { return root_; }
private:
    bview root_;
};
inline descriptor_table decode_view(std::string_view s) { return descriptor_table(detail::decoder<std::string_view>(s).root()); }

} // namespace bencode

#define BENCODE_SHIM_SERIALIZES(T, KIND)                                                              \
    template <> struct bencode::serializes_to<T> : std::integral_constant<bencode::btype, bencode::btype::KIND> \
    { static constexpr bool set = true; };
#define BENCODE_SERIALIZES_TO_LIST(...)    BENCODE_SHIM_SERIALIZES(__VA_ARGS__, list)
#define BENCODE_SERIALIZES_TO_DICT(...)    BENCODE_SHIM_SERIALIZES(__VA_ARGS__, dict)
#define BENCODE_SERIALIZES_TO_STRING(...)  BENCODE_SHIM_SERIALIZES(__VA_ARGS__, string)
#define BENCODE_SERIALIZES_TO_INTEGER(...) BENCODE_SHIM_SERIALIZES(__VA_ARGS__, integer)
