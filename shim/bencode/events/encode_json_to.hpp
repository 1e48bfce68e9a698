#pragma once
#include <bencode/bencode.hpp>
namespace bencode::events {
// Writes the event stream to a std::ostream as JSON; bytes outside printable ASCII are escaped.
class encode_json_to {
public:
    explicit encode_json_to(std::ostream& os) : os_(&os) {}
    void integer(std::int64_t v) { sep(); *os_ << v; }
    void string(std::string_view v)
    {
        sep();
        *os_ << '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') *os_ << '\\' << char(c);
            else if (c < 0x20 || c >= 0x7f) *os_ << fmt::format("\\u{:04x}", unsigned(c));
            else *os_ << char(c);
        }
        *os_ << '"';
    }
    void list_begin(std::optional<std::size_t> = std::nullopt) { sep(); *os_ << '['; pending_ = false; }
    void list_item() { pending_ = true; }
    void list_end() { *os_ << ']'; pending_ = false; }
    void dict_begin(std::optional<std::size_t> = std::nullopt) { sep(); *os_ << '{'; pending_ = false; }
    void dict_key() { *os_ << ':'; }
    void dict_value() { pending_ = true; }
    void dict_end() { *os_ << '}'; pending_ = false; }
    void error(const std::string& = {}) {}
private:
    void sep() { if (pending_) { *os_ << ','; pending_ = false; } }
    std::ostream* os_;
    bool pending_ = false;
};
}
