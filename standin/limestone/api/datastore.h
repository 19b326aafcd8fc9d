/*
 * Stand-in for the limestone datastore (the real library is not installed in
 * this sandbox).  It keeps the log in memory and offers the subset of the
 * interface shirakami uses:
 *
 *  - begin_session tags the session with the epoch switched last; entries
 *    added belong to that session;
 *  - the durable epoch is the largest epoch e such that the datastore has been
 *    switched past e and no open session carries an epoch <= e (and e is at
 *    most the limit a harness may impose to model a slow disk); it never
 *    decreases and is reported through the persistent callback;
 *  - a crash keeps exactly the entries of sessions whose epoch is durable;
 *  - recovery yields, per storage and key, the entry with the greatest write
 *    version, if it is not a removal and no later remove_storage covers it.
 *
 * harness additions (not in limestone) are marked [harness].
 */
#pragma once

#include <algorithm>
#include <atomic>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

extern "C" __attribute__((weak)) void hv_quiet(int);

namespace limestone::api {

// the lock of a store; for a scheduler what is done under it is one step
class hold {
public:
    explicit hold(std::mutex& m) : m_(m) { lock(); }
    ~hold() {
        if (have_) unlock();
    }
    hold(const hold&) = delete;
    hold& operator=(const hold&) = delete;
    void lock() {
        if (hv_quiet != nullptr) hv_quiet(1);
        m_.lock();
        have_ = true;
    }
    void unlock() {
        have_ = false;
        m_.unlock();
        if (hv_quiet != nullptr) hv_quiet(-1);
    }

private:
    std::mutex& m_;
    bool have_{false};
};


using epoch_id_type = std::uint64_t;
using epoch_t = std::int64_t;
using storage_id_type = std::uint64_t;
using blob_id_type = std::uint64_t;

class write_version_type {
public:
    write_version_type() = default;
    write_version_type(epoch_id_type ma, std::uint64_t mi) : ma_(ma), mi_(mi) {}
    bool operator<(const write_version_type& o) const {
        return ma_ != o.ma_ ? ma_ < o.ma_ : mi_ < o.mi_;
    }
    bool operator==(const write_version_type& o) const {
        return ma_ == o.ma_ && mi_ == o.mi_;
    }
    [[nodiscard]] epoch_id_type get_major() const { return ma_; }
    [[nodiscard]] std::uint64_t get_minor() const { return mi_; }

private:
    epoch_id_type ma_{0};
    std::uint64_t mi_{0};
};

class configuration {
public:
    configuration() = default;
    template<class P>
    void set_data_location(P const& p) {
        location_ = std::filesystem::path(p).string();
    }
    void set_recover_max_parallelism(int n) { para_ = n; }
    std::string location_{}; // NOLINT
    int para_{0};            // NOLINT
};

// [harness]
enum class entry_kind { put, remove, add_storage, remove_storage };

// [harness]
struct log_entry {
    entry_kind kind{};
    storage_id_type st{};
    std::string key{};
    std::string val{};
    write_version_type wv{};
    std::vector<blob_id_type> lobs{};
    std::size_t channel{};
    std::uint64_t session{};       // serial number of the session
    epoch_id_type session_epoch{}; // epoch of the session
    bool ended{false};             // was the session ended
};

// [harness] the surviving content
struct image {
    std::vector<log_entry> entries{};
    epoch_id_type durable{0};
};

class datastore;

class log_channel {
public:
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key,
                   std::string_view val, write_version_type wv);
    void add_entry(storage_id_type st, std::string_view key,
                   std::string_view val, write_version_type wv,
                   std::vector<blob_id_type> const& lobs);
    void remove_entry(storage_id_type st, std::string_view key,
                      write_version_type wv);
    void add_storage(storage_id_type st, write_version_type wv);
    void remove_storage(storage_id_type st, write_version_type wv);

    datastore* ds_{};              // NOLINT
    std::size_t no_{};             // NOLINT
    std::uint64_t session_{0};     // NOLINT 0 = none
    epoch_id_type session_epoch_{0}; // NOLINT
    void add(log_entry e);
};

class cursor {
public:
    using ent = std::tuple<storage_id_type, std::string, std::string,
                           std::vector<blob_id_type>>;
    explicit cursor(std::vector<ent> v) : v_(std::move(v)) {}
    bool next() { return static_cast<std::size_t>(++i_) < v_.size(); }
    [[nodiscard]] storage_id_type storage() const { return std::get<0>(v_.at(i_)); }
    void key(std::string& k) const { k = std::get<1>(v_.at(i_)); }
    void value(std::string& k) const { k = std::get<2>(v_.at(i_)); }
    [[nodiscard]] std::vector<blob_id_type>& large_objects() { return std::get<3>(v_.at(i_)); }

private:
    std::vector<ent> v_;
    std::int64_t i_{-1};
};

class snapshot {
public:
    explicit snapshot(std::vector<cursor::ent> v) : v_(std::move(v)) {}
    [[nodiscard]] std::unique_ptr<cursor> get_cursor() const {
        return std::make_unique<cursor>(v_);
    }
    [[nodiscard]] std::vector<std::unique_ptr<cursor>>
    get_partitioned_cursors(std::size_t n) const {
        std::vector<std::vector<cursor::ent>> p(n);
        for (std::size_t i = 0; i < v_.size(); ++i) p[i % n].push_back(v_[i]);
        std::vector<std::unique_ptr<cursor>> r;
        for (auto& e : p) r.push_back(std::make_unique<cursor>(std::move(e)));
        return r;
    }

private:
    std::vector<cursor::ent> v_;
};

// [harness] images that survive a process-local restart, by data location
inline std::map<std::string, image>& disk() {
    static std::map<std::string, image> d;
    return d;
}

class datastore {
public:
    datastore() = default;
    explicit datastore(configuration const& c) : location_(c.location_) {
        std::filesystem::create_directories(location_);
        auto it = disk().find(location_);
        bool mark = std::filesystem::exists(std::filesystem::path(location_) / "standin.mark");
        if (it != disk().end() && mark) img_ = it->second;
        std::filesystem::path m = std::filesystem::path(location_) / "standin.mark";
        if (FILE* f = std::fopen(m.c_str(), "w"); f != nullptr) std::fclose(f); // NOLINT
        adopt();
    }
    // [harness] a datastore over what survived
    explicit datastore(image img) : img_(std::move(img)) { adopt(); }

    void ready() {}
    void recover() {
        hold lk{mtx_};
        recovered_ = true;
    }
    log_channel& create_channel() {
        hold lk{mtx_};
        channels_.push_back(std::make_unique<log_channel>());
        channels_.back()->ds_ = this;
        channels_.back()->no_ = channels_.size() - 1;
        return *channels_.back();
    }
    log_channel& create_channel(std::string const&) { return create_channel(); }

    [[nodiscard]] std::unique_ptr<snapshot> get_snapshot() {
        hold lk{mtx_};
        using key_t = std::pair<storage_id_type, std::string>;
        std::map<key_t, const log_entry*> win;
        std::map<storage_id_type, write_version_type> cleared;
        std::size_t n = recovered_entries_;
        for (std::size_t i = 0; i < n; ++i) {
            auto& e = log_[i];
            if (e.kind == entry_kind::remove_storage) {
                auto it = cleared.find(e.st);
                if (it == cleared.end() || it->second < e.wv) cleared[e.st] = e.wv;
            } else if (e.kind == entry_kind::put || e.kind == entry_kind::remove) {
                auto& w = win[{e.st, e.key}];
                if (w == nullptr || !(e.wv < w->wv)) w = &e;
            }
        }
        std::vector<cursor::ent> v;
        for (auto& w : win) {
            if (w.second->kind == entry_kind::remove) continue;
            auto it = cleared.find(w.first.first);
            if (it != cleared.end() && w.second->wv < it->second) continue;
            v.emplace_back(w.first.first, w.first.second, w.second->val, w.second->lobs);
        }
        return std::make_unique<snapshot>(std::move(v));
    }

    void switch_epoch(epoch_id_type e) {
        hold lk{mtx_};
        switched_ = e;
        burn();
        inform(lk);
    }
    void switch_available_boundary_version(write_version_type) {}
    void add_persistent_callback(std::function<void(epoch_id_type)> f) {
        hold lk{mtx_};
        cb_ = std::move(f);
    }
    void remove_persistent_callback() {
        hold lk{mtx_};
        cb_ = nullptr;
    }
    epoch_id_type last_epoch() {
        hold lk{mtx_};
        return durable_;
    }
    std::future<void> shutdown() {
        hold lk{mtx_};
        if (!location_.empty()) disk()[location_] = crash_locked();
        std::promise<void> p;
        p.set_value();
        return p.get_future();
    }

    // [harness] what a crash now would leave
    image crash() {
        hold lk{mtx_};
        return crash_locked();
    }
    // [harness] the epoch switched to last
    epoch_id_type switched_epoch() {
        hold lk{mtx_};
        return switched_;
    }
    // [harness] everything sent so far
    std::vector<log_entry> all_entries(std::size_t from = 0) {
        hold lk{mtx_};
        return {log_.begin() + static_cast<std::int64_t>(std::min(from, log_.size())), log_.end()};
    }
    std::size_t entry_count() {
        hold lk{mtx_};
        return log_.size();
    }
    // [harness] the disk does not get further than this epoch
    void set_limit(epoch_id_type e) {
        hold lk{mtx_};
        limit_ = e;
        inform(lk);
    }

    // [harness] take the image of a crash after n more log operations
    void set_fuse(std::uint64_t n, std::function<void(image const&)> f) {
        hold lk{mtx_};
        fuse_ = n;
        on_fuse_ = std::move(f);
    }

    void begin(log_channel* c) {
        hold lk{mtx_};
        burn();
        if (c->session_ != 0) ++protocol_errors_;
        c->session_ = ++session_ctr_;
        c->session_epoch_ = switched_;
        open_.emplace(c->session_epoch_, c->session_);
    }
    void end(log_channel* c) {
        hold lk{mtx_};
        if (c->session_ == 0) {
            ++protocol_errors_;
            return;
        }
        burn();
        open_.erase({c->session_epoch_, c->session_});
        for (auto i = log_.rbegin(); i != log_.rend(); ++i) {
            if (i->session == c->session_) i->ended = true;
        }
        c->session_ = 0;
        burn();
        inform(lk);
    }
    void add(log_channel* c, log_entry e) {
        hold lk{mtx_};
        burn();
        if (c->session_ == 0) ++protocol_errors_;
        e.channel = c->no_;
        e.session = c->session_;
        e.session_epoch = c->session_epoch_;
        log_.push_back(std::move(e));
    }
    std::size_t protocol_errors() const { return protocol_errors_; }

private:
    void burn() {
        if (fuse_ != 0 && --fuse_ == 0 && on_fuse_) on_fuse_(crash_locked());
    }
    void adopt() {
        log_ = std::move(img_.entries);
        recovered_entries_ = log_.size();
        durable_ = img_.durable;
        switched_ = durable_;
        for (auto& e : log_) session_ctr_ = std::max(session_ctr_, e.session);
    }
    image crash_locked() {
        image r;
        r.durable = durable_;
        for (auto& e : log_) {
            if (e.ended && e.session_epoch <= durable_) r.entries.push_back(e);
        }
        return r;
    }
    void inform(hold& lk) {
        epoch_id_type d = switched_ == 0 ? 0 : switched_ - 1;
        if (!open_.empty()) {
            auto m = open_.begin()->first;
            d = std::min(d, m == 0 ? 0 : m - 1);
        }
        d = std::min(d, limit_);
        if (d > durable_) {
            durable_ = d;
            burn(); // durable, but nobody knows yet
            auto f = cb_;
            lk.unlock();
            // one call at a time, never backwards
            std::lock_guard<std::mutex> cl{cb_mtx_};
            if (d < informed_) return;
            informed_ = d;
            if (f) f(d);
        }
    }

    std::mutex mtx_{};
    std::mutex cb_mtx_{};
    epoch_id_type informed_{0};
    std::string location_{};
    image img_{};
    std::vector<log_entry> log_{};
    std::size_t recovered_entries_{0};
    std::vector<std::unique_ptr<log_channel>> channels_{};
    std::set<std::pair<epoch_id_type, std::uint64_t>> open_{};
    std::uint64_t session_ctr_{0};
    epoch_id_type switched_{0};
    epoch_id_type durable_{0};
    epoch_id_type limit_{~0ULL};
    std::uint64_t fuse_{0};
    std::function<void(image const&)> on_fuse_{};
    std::function<void(epoch_id_type)> cb_{};
    bool recovered_{false};
    std::atomic<std::size_t> protocol_errors_{0};
};

inline void log_channel::begin_session() { ds_->begin(this); }
inline void log_channel::end_session() { ds_->end(this); }
inline void log_channel::add(log_entry e) { ds_->add(this, std::move(e)); }
inline void log_channel::add_entry(storage_id_type st, std::string_view key,
                                   std::string_view val, write_version_type wv) {
    add_entry(st, key, val, wv, {});
}
inline void log_channel::add_entry(storage_id_type st, std::string_view key,
                                   std::string_view val, write_version_type wv,
                                   std::vector<blob_id_type> const& lobs) {
    log_entry e;
    e.kind = entry_kind::put;
    e.st = st;
    e.key = key;
    e.val = val;
    e.wv = wv;
    e.lobs = lobs;
    add(std::move(e));
}
inline void log_channel::remove_entry(storage_id_type st, std::string_view key,
                                      write_version_type wv) {
    log_entry e;
    e.kind = entry_kind::remove;
    e.st = st;
    e.key = key;
    e.wv = wv;
    add(std::move(e));
}
inline void log_channel::add_storage(storage_id_type st, write_version_type wv) {
    log_entry e;
    e.kind = entry_kind::add_storage;
    e.st = st;
    e.wv = wv;
    add(std::move(e));
}
inline void log_channel::remove_storage(storage_id_type st, write_version_type wv) {
    log_entry e;
    e.kind = entry_kind::remove_storage;
    e.st = st;
    e.wv = wv;
    add(std::move(e));
}

} // namespace limestone::api
