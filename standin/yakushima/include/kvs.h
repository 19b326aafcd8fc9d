/*
 * Stand-in for the yakushima index (the real library is not installed in this
 * sandbox).  It offers the subset of yakushima's interface shirakami uses:
 * ordered storages of key -> 8-byte inlined value, sessions, point get / put /
 * remove, range scan (both directions, with limit), iterator scan, and the
 * border-node version protocol (vinsert_delete / vsplit) that shirakami's
 * phantom avoidance relies on.
 *
 * Every storage is a list of border nodes that partition the key space.  A node
 * holds at most node_capacity keys and splits when it overflows; a node that
 * becomes empty is unlinked unless it is the only one (its key range falls to
 * its left neighbour, or the right one when it was the first).  One mutex per
 * storage serialises structural access, so each call is linearizable.
 */
#pragma once

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

extern "C" __attribute__((weak)) void hv_quiet(int);

namespace yakushima {

enum class status : std::int32_t {
    WARN_BAD_USAGE,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_RETRY_FROM_ROOT_OF_ALL,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    WARN_ABORTED_BY_USER,
    OK,
    OK_DESTROY_ALL,
    OK_DESTROY_BORDER,
    OK_DESTROY_INTERIOR,
    OK_RETRY_FETCH_LV,
    OK_RETRY_AFTER_FB,
    OK_RETRY_FROM_ROOT,
    OK_ROOT_IS_DELETED,
    OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE,
    OK_SCAN_END,
    ERR_BAD_USAGE,
    ERR_UNKNOWN_ROOT,
};

inline std::ostream& operator<<(std::ostream& out, status s) {
    return out << "yakushima_status_" << static_cast<int>(s);
}

enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };

enum class value_align_type : std::size_t {};

using Token = void*;

class node_version64_body {
public:
    [[nodiscard]] std::uint32_t get_vinsert_delete() const { return vid_; }
    [[nodiscard]] std::uint32_t get_vsplit() const { return vsplit_; }
    [[nodiscard]] bool get_deleted() const { return deleted_; }
    bool operator==(const node_version64_body& o) const {
        return vid_ == o.vid_ && vsplit_ == o.vsplit_ && deleted_ == o.deleted_;
    }
    bool operator!=(const node_version64_body& o) const { return !(*this == o); }

    std::uint32_t vid_{0};    // NOLINT
    std::uint16_t vsplit_{0}; // NOLINT
    bool deleted_{false};     // NOLINT
};

class node_version64 {
public:
    [[nodiscard]] node_version64_body get_body() const {
        return unpack(w_.load(std::memory_order_acquire));
    }
    [[nodiscard]] node_version64_body get_stable_version() const {
        return get_body();
    }
    void set_body(node_version64_body b) {
        w_.store(pack(b), std::memory_order_release);
    }

private:
    static std::uint64_t pack(node_version64_body b) {
        return (static_cast<std::uint64_t>(b.vid_) << 32U) |
               (static_cast<std::uint64_t>(b.vsplit_) << 8U) |
               (b.deleted_ ? 1U : 0U);
    }
    static node_version64_body unpack(std::uint64_t w) {
        node_version64_body b;
        b.vid_ = static_cast<std::uint32_t>(w >> 32U);
        b.vsplit_ = static_cast<std::uint16_t>((w >> 8U) & 0xffffU);
        b.deleted_ = (w & 1U) != 0;
        return b;
    }
    std::atomic<std::uint64_t> w_{0};
};

struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

namespace detail {

// a scheduler may be told that the call is one step
struct one_step {
    one_step() {
        if (hv_quiet != nullptr) hv_quiet(1);
    }
    ~one_step() {
        if (hv_quiet != nullptr) hv_quiet(-1);
    }
    one_step(const one_step&) = delete;
    one_step& operator=(const one_step&) = delete;
};

inline constexpr std::size_t node_capacity = 4;

struct border {
    node_version64 ver{};
    std::map<std::string, void*, std::less<>> kv{};
};

struct tree {
    std::mutex mtx{};
    // key: smallest key of the node's range ("" for the first)
    std::map<std::string, std::unique_ptr<border>, std::less<>> nodes{};
    std::vector<std::unique_ptr<border>> graveyard{};

    tree() { nodes.emplace("", std::make_unique<border>()); }

    auto locate(std::string_view key) {
        auto it = nodes.upper_bound(key);
        --it;
        return it;
    }
};

struct registry {
    std::mutex mtx{};
    std::map<std::string, std::shared_ptr<tree>, std::less<>> trees{};
    std::vector<std::shared_ptr<tree>> dropped{};
    std::atomic<std::uint64_t> sessions{0};
};

inline registry& reg() {
    static registry r;
    return r;
}

inline std::shared_ptr<tree> find(std::string_view st) {
    one_step q;
    auto& r = reg();
    std::lock_guard<std::mutex> lk{r.mtx};
    auto it = r.trees.find(st);
    return it == r.trees.end() ? nullptr : it->second;
}

inline bool left_ok(std::string_view k, std::string_view l, scan_endpoint e) {
    if (e == scan_endpoint::INF) return true;
    if (e == scan_endpoint::INCLUSIVE) return k >= l;
    return k > l;
}

inline bool right_ok(std::string_view k, std::string_view r, scan_endpoint e) {
    if (e == scan_endpoint::INF) return true;
    if (e == scan_endpoint::INCLUSIVE) return k <= r;
    return k < r;
}

// may the node whose range starts at lo intersect keys <= right end?
inline bool node_left_of_right_end(std::string_view lo, std::string_view r,
                                   scan_endpoint e) {
    if (lo.empty()) return true;
    return right_ok(lo, r, e);
}

} // namespace detail

class tree_instance {};

class storage {
public:
    void store_root_ptr(void*) {
        // forget everything without touching the values (fast shutdown)
        auto& r = detail::reg();
        std::lock_guard<std::mutex> lk{r.mtx};
        r.trees.clear();
    }
    static storage* get_storages() {
        static storage s;
        return &s;
    }
};

inline status init() { return status::OK; }

inline status fin() {
    auto& r = detail::reg();
    std::lock_guard<std::mutex> lk{r.mtx};
    r.trees.clear();
    r.dropped.clear();
    return status::OK;
}

inline status enter(Token& token) {
    detail::one_step q;
    token = reinterpret_cast<Token>(++detail::reg().sessions); // NOLINT
    return status::OK;
}

inline status leave(Token) { return status::OK; }

inline status create_storage(std::string_view st) {
    detail::one_step q;
    auto& r = detail::reg();
    std::lock_guard<std::mutex> lk{r.mtx};
    auto rc = r.trees.emplace(std::string(st), nullptr);
    if (!rc.second) return status::WARN_UNIQUE_RESTRICTION;
    rc.first->second = std::make_shared<detail::tree>();
    return status::OK;
}

inline status delete_storage(std::string_view st) {
    detail::one_step q;
    auto& r = detail::reg();
    std::lock_guard<std::mutex> lk{r.mtx};
    auto it = r.trees.find(st);
    if (it == r.trees.end()) return status::WARN_STORAGE_NOT_EXIST;
    r.dropped.push_back(std::move(it->second)); // node versions stay readable
    r.trees.erase(it);
    return status::OK;
}

inline status find_storage(std::string_view st) {
    detail::one_step q;
    return detail::find(st) ? status::OK : status::WARN_STORAGE_NOT_EXIST;
}

inline status
list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    detail::one_step q;
    out.clear();
    auto& r = detail::reg();
    std::lock_guard<std::mutex> lk{r.mtx};
    for (auto& e : r.trees) out.emplace_back(e.first, nullptr);
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}

template<class ValueType>
status get(std::string_view st, std::string_view key,
           std::pair<ValueType*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* checked = nullptr) {
    detail::one_step q;
    auto t = detail::find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::lock_guard<std::mutex> lk{t->mtx};
    auto& b = *t->locate(key)->second;
    if (checked != nullptr) *checked = {b.ver.get_body(), &b.ver};
    auto it = b.kv.find(key);
    if (it == b.kv.end()) return status::WARN_NOT_EXIST;
    out.first = reinterpret_cast<ValueType*>(it->second); // NOLINT
    out.second = sizeof(void*);
    return status::OK;
}

template<class ValueType>
status put(Token, std::string_view st, std::string_view key, ValueType* value,
           [[maybe_unused]] std::size_t len = sizeof(ValueType),
           [[maybe_unused]] ValueType** created = nullptr,
           [[maybe_unused]] value_align_type align = {},
           bool unique_restriction = false, inserted_node_info* ii = nullptr) {
    detail::one_step q;
    auto t = detail::find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::lock_guard<std::mutex> lk{t->mtx};
    auto nit = t->locate(key);
    auto& b = *nit->second;
    void* v{};
    std::memcpy(&v, value, sizeof(v));
    auto it = b.kv.find(key);
    if (it != b.kv.end()) {
        if (unique_restriction) return status::WARN_UNIQUE_RESTRICTION;
        it->second = v;
        return status::OK;
    }
    b.kv.emplace(std::string(key), v);
    node_version64_body nv = b.ver.get_body();
    ++nv.vid_;
    if (ii != nullptr) ii->modified_nvp = &b.ver;
    if (b.kv.size() > detail::node_capacity) {
        ++nv.vsplit_;
        auto nb = std::make_unique<detail::border>();
        auto mid = b.kv.begin();
        std::advance(mid, b.kv.size() / 2);
        std::string lo = mid->first;
        for (auto i = mid; i != b.kv.end(); ++i) nb->kv.insert(*i);
        b.kv.erase(mid, b.kv.end());
        nb->ver.set_body(nv);
        if (ii != nullptr) ii->created_nvp = &nb->ver;
        t->nodes.emplace(std::move(lo), std::move(nb));
    }
    b.ver.set_body(nv);
    return status::OK;
}

inline status remove(Token, std::string_view st, std::string_view key) {
    detail::one_step q;
    auto t = detail::find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::lock_guard<std::mutex> lk{t->mtx};
    auto nit = t->locate(key);
    auto& b = *nit->second;
    auto it = b.kv.find(key);
    if (it == b.kv.end()) return status::WARN_NOT_EXIST;
    // taking a key out leaves the version of the node as it is
    b.kv.erase(it);
    if (b.kv.empty() && t->nodes.size() > 1) {
        node_version64_body nv = b.ver.get_body();
        nv.deleted_ = true;
        b.ver.set_body(nv);
        bool first = nit == t->nodes.begin();
        t->graveyard.push_back(std::move(nit->second));
        auto next = t->nodes.erase(nit);
        if (first) {
            // the right neighbour inherits the range
            auto nb = std::move(next->second);
            t->nodes.erase(next);
            t->nodes.emplace("", std::move(nb));
        }
    }
    return status::OK;
}

namespace detail {

// The border nodes whose range may hold a key of the interval, in scan order.
inline std::vector<border*> nodes_of(tree& t, std::string_view l_key,
                                     scan_endpoint l_end,
                                     std::string_view r_key,
                                     scan_endpoint r_end, bool rev,
                                     std::size_t limit = SIZE_MAX) {
    std::vector<border*> v;
    auto it = l_end == scan_endpoint::INF ? t.nodes.begin() : t.locate(l_key);
    for (; it != t.nodes.end() && v.size() < limit; ++it) {
        if (!v.empty() && !node_left_of_right_end(it->first, r_key, r_end)) break;
        v.push_back(it->second.get());
    }
    if (rev) std::reverse(v.begin(), v.end());
    return v;
}

} // namespace detail

// the nodes left of the first one, for the reverse direction
template<class ValueType>
void continue_left(detail::tree&, std::vector<std::tuple<std::string, ValueType*, std::size_t>>& out,
                   std::vector<std::pair<node_version64_body, node_version64*>>* nvec,
                   const std::vector<detail::border*>& v, std::string_view l_key, scan_endpoint l_end,
                   std::string_view r_key, scan_endpoint r_end, std::size_t max_size) {
    for (std::size_t n = 1; n < v.size(); ++n) {
        auto* b = v[n];
        std::size_t before = out.size();
        for (auto i = b->kv.rbegin(); i != b->kv.rend(); ++i) {
            if (!detail::left_ok(i->first, l_key, l_end) || !detail::right_ok(i->first, r_key, r_end)) continue;
            out.emplace_back(i->first, reinterpret_cast<ValueType*>(i->second), sizeof(void*)); // NOLINT
            if (nvec != nullptr) nvec->emplace_back(b->ver.get_body(), &b->ver);
            if (max_size != 0 && out.size() >= max_size) return;
        }
        if (before == out.size() && nvec != nullptr) nvec->emplace_back(b->ver.get_body(), &b->ver);
    }
}

template<class ValueType>
status scan(std::string_view st, std::string_view l_key, scan_endpoint l_end,
            std::string_view r_key, scan_endpoint r_end,
            std::vector<std::tuple<std::string, ValueType*, std::size_t>>& out,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec =
                    nullptr,
            std::size_t max_size = 0, bool right_to_left = false) {
    out.clear();
    if (nvec != nullptr) nvec->clear();
    if (right_to_left && (max_size != 1 || r_end != scan_endpoint::INF)) return status::ERR_BAD_USAGE;
    auto t = detail::find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    // node by node: others may come between
    std::string from;  // where the unread part begins
    bool started = false;
    for (;;) {
        detail::one_step q;
        std::lock_guard<std::mutex> lk{t->mtx};
        const std::size_t limit = right_to_left ? SIZE_MAX : 2;
        auto v = started ? detail::nodes_of(*t, from, scan_endpoint::INCLUSIVE, r_key, r_end, right_to_left, limit)
                         : detail::nodes_of(*t, l_key, l_end, r_key, r_end, right_to_left, limit);
        auto* b = v.front();
        std::size_t before = out.size();
        auto one = [&](const std::string& k, void* x) {
            if (!detail::left_ok(k, l_key, l_end) || !detail::right_ok(k, r_key, r_end)) return true;
            if (started && k < from) return true;
            out.emplace_back(k, reinterpret_cast<ValueType*>(x), sizeof(void*)); // NOLINT
            if (nvec != nullptr) nvec->emplace_back(b->ver.get_body(), &b->ver);
            return !(max_size != 0 && out.size() >= max_size);
        };
        bool go = true;
        if (right_to_left) {
            for (auto i = b->kv.rbegin(); go && i != b->kv.rend(); ++i) go = one(i->first, i->second);
        } else {
            for (auto i = b->kv.begin(); go && i != b->kv.end(); ++i) go = one(i->first, i->second);
        }
        if (!go) break;
        if (before == out.size() && nvec != nullptr) {
            nvec->emplace_back(b->ver.get_body(), &b->ver);
        }
        if (v.size() < 2) break;
        if (right_to_left) continue_left(*t, out, nvec, v, l_key, l_end, r_key, r_end, max_size);
        if (right_to_left) break;
        auto it = started ? t->locate(from)
                          : l_end == scan_endpoint::INF ? t->nodes.begin() : t->locate(l_key);
        from = std::next(it)->first;
        started = true;
    }
    return status::OK;
}

struct iscan_context {
    std::shared_ptr<detail::tree> t{};
    std::string l_key{};
    scan_endpoint l_end{};
    std::string r_key{};
    scan_endpoint r_end{};
    bool rev{};
    detail::border* cur{};
    node_version64_body seen{};
};

using iscan_cb = std::function<bool(node_version64*, node_version64_body)>;

inline status iscan_next(iscan_context* c, void*& value,
                         const iscan_cb& cb = nullptr) {
    std::vector<std::pair<node_version64*, node_version64_body>> visited;
    bool found = false;
    {
        detail::one_step q;
        std::lock_guard<std::mutex> lk{c->t->mtx};
        for (auto* b : detail::nodes_of(*c->t, c->l_key, c->l_end, c->r_key, c->r_end, c->rev)) {
            if (c->cur != b || c->seen != b->ver.get_body()) {
                c->cur = b;
                c->seen = b->ver.get_body();
                visited.emplace_back(&b->ver, c->seen);
            }
            auto one = [&](const std::string& k, void* v) {
                if (!detail::left_ok(k, c->l_key, c->l_end) || !detail::right_ok(k, c->r_key, c->r_end)) return false;
                value = v;
                if (c->rev) {
                    c->r_key = k;
                    c->r_end = scan_endpoint::EXCLUSIVE;
                } else {
                    c->l_key = k;
                    c->l_end = scan_endpoint::EXCLUSIVE;
                }
                return true;
            };
            if (c->rev) {
                for (auto i = b->kv.rbegin(); !found && i != b->kv.rend(); ++i) found = one(i->first, i->second);
            } else {
                for (auto i = b->kv.begin(); !found && i != b->kv.end(); ++i) found = one(i->first, i->second);
            }
            if (found) break;
        }
    }
    if (cb) {
        for (auto& e : visited) {
            if (cb(e.first, e.second)) return status::WARN_ABORTED_BY_USER;
        }
    }
    return found ? status::OK : status::OK_SCAN_END;
}

inline status iscan_open(std::string_view st, std::string_view l_key,
                         scan_endpoint l_end, std::string_view r_key,
                         scan_endpoint r_end, bool right_to_left, bool,
                         iscan_context*& context, void*& value,
                         const iscan_cb& cb = nullptr) {
    auto t = detail::find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    context = new iscan_context{}; // NOLINT
    context->t = t;
    context->l_key = l_key;
    context->l_end = l_end;
    context->r_key = r_key;
    context->r_end = r_end;
    context->rev = right_to_left;
    return iscan_next(context, value, cb);
}

inline status iscan_close(iscan_context*& context) {
    delete context; // NOLINT
    context = nullptr;
    return status::OK;
}

} // namespace yakushima
