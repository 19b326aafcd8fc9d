/*
 * Shared pieces of the drivers: abstract keys / values and their concrete
 * forms, and a minimal JSON event builder.
 */
#pragma once

#include <cstdint>
#include <cstdio>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "shirakami/interface.h"

namespace hv {

inline std::string esc(std::string_view s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (static_cast<unsigned char>(c) < 0x20) {
            r += '?';
        } else {
            r += c;
        }
    }
    return r;
}

class ev {
public:
    explicit ev(std::string_view op) { s_ = "{\"o\":\"" + std::string(op) + "\""; }
    ev& i(std::string_view k, std::int64_t v) {
        s_ += ",\"" + std::string(k) + "\":" + std::to_string(v);
        return *this;
    }
    ev& s(std::string_view k, std::string_view v) {
        s_ += ",\"" + std::string(k) + "\":\"" + esc(v) + "\"";
        return *this;
    }
    ev& raw(std::string_view k, std::string_view v) {
        s_ += ",\"" + std::string(k) + "\":" + std::string(v);
        return *this;
    }
    [[nodiscard]] std::string str() const { return s_ + "}"; }

private:
    std::string s_;
};

// status name without relying on the engine's own printer
inline const char* rc_name(shirakami::Status s) {
    using S = shirakami::Status;
    switch (s) {
#define C(x)                                                                   \
    case S::x:                                                                 \
        return #x;
        C(OK)
        C(WARN_ALREADY_BEGIN)
        C(WARN_ALREADY_EXISTS)
        C(WARN_ALREADY_INIT)
        C(WARN_CANCEL_PREVIOUS_INSERT)
        C(WARN_CANCEL_PREVIOUS_UPSERT)
        C(WARN_CONCURRENT_INSERT)
        C(WARN_CONCURRENT_UPDATE)
        C(WARN_CONFLICT_ON_WRITE_PRESERVE)
        C(WARN_ILLEGAL_OPERATION)
        C(WARN_INVALID_ARGS)
        C(WARN_INVALID_HANDLE)
        C(WARN_INVALID_KEY_LENGTH)
        C(WARN_MAX_OPEN_SCAN)
        C(WARN_NOT_BEGIN)
        C(WARN_NOT_FOUND)
        C(WARN_NOT_IN_A_SESSION)
        C(WARN_NOT_INIT)
        C(WARN_PREMATURE)
        C(WARN_SCAN_LIMIT)
        C(WARN_STORAGE_ID_DEPLETION)
        C(WARN_STORAGE_NOT_FOUND)
        C(WARN_WAITING_FOR_OTHER_TX)
        C(WARN_WRITE_WITHOUT_WP)
        C(ERR_CC)
        C(ERR_FATAL)
        C(ERR_FATAL_INDEX)
        C(ERR_INVALID_CONFIGURATION)
        C(ERR_KVS)
        C(ERR_READ_AREA_VIOLATION)
        C(ERR_NOT_IMPLEMENTED)
        C(ERR_SESSION_LIMIT)
#undef C
        default:
            return "OTHER";
    }
}

inline const char* reason_name(shirakami::reason_code r) {
    using R = shirakami::reason_code;
    switch (r) {
#define C(x)                                                                   \
    case R::x:                                                                 \
        return #x;
        C(UNKNOWN)
        C(KVS_DELETE)
        C(KVS_INSERT)
        C(KVS_UPDATE)
        C(CC_LTX_PHANTOM_AVOIDANCE)
        C(CC_LTX_READ_AREA_VIOLATION)
        C(CC_LTX_READ_UPPER_BOUND_VIOLATION)
        C(CC_LTX_WRITE_COMMITTED_READ_PROTECTION)
        C(CC_OCC_WP_VERIFY)
        C(CC_OCC_READ_VERIFY)
        C(CC_OCC_PHANTOM_AVOIDANCE)
        C(USER_ABORT)
#undef C
        default:
            return "OTHER";
    }
}

// Concrete key of abstract key k (1..) in key set ks; order preserving.
inline std::string key_of(int ks, int k) {
    switch (ks) {
        case 1: { // around the 8-byte slice boundary and with NULs
            static const std::vector<std::string> t = [] {
                std::vector<std::string> v{
                        std::string(""), std::string("\0", 1), std::string("\0\0", 2),
                        "a", std::string("a\0", 2), "aaaaaaa", "aaaaaaaa",
                        std::string("aaaaaaaa\0", 9), "aaaaaaaaa", "aaaaaaaab",
                        "aaaaaaab", "ab", "b", "bbbbbbbbbbbbbbbb", "bbbbbbbbbbbbbbbbc",
                        std::string("\xff", 1), std::string("\xff\xff", 2)};
                return v;
            }();
            if (k <= static_cast<int>(t.size())) return t[k - 1];
            return std::string("\xff\xff\xff", 3) + static_cast<char>(k);
        }
        case 2: { // long keys with a shared prefix
            std::string s(200 + (k % 3), 'p');
            s[199] = static_cast<char>('A' + k);
            return s;
        }
        case 3: { // prefix chains
            return std::string(k, 'q');
        }
        default: {
            char b[8];
            std::snprintf(b, sizeof(b), "k%03d", k);
            return b;
        }
    }
}

// Concrete value of value id v in value set vs.
inline std::string val_of(int vs, int v) {
    std::string id = "v" + std::to_string(v) + ".";
    switch (vs) {
        case 1:
            return id + std::string(static_cast<std::size_t>(20 + (v * 37) % 300),
                                    static_cast<char>('a' + v % 26));
        case 2:
            return id + std::string(static_cast<std::size_t>((v % 3) * 8),
                                    static_cast<char>('a' + v % 26));
        default:
            return id;
    }
}

inline int id_of_val(int vs, std::string_view s) {
    if (s.size() < 3 || s[0] != 'v') return -1;
    std::int64_t id = 0;
    std::size_t i = 1;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9' && i < 9; ++i) id = id * 10 + (s[i] - '0');
    if (i == 1) return -1;
    return val_of(vs, static_cast<int>(id)) == s ? static_cast<int>(id) : -1;
}

} // namespace hv
