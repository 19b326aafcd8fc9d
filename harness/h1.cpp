/*
 * Deterministic replay of API scripts into the real engine.
 *
 * Background threads of the engine are gated: they run only when the script
 * says so (E: one step of the thread that advances the epoch, B: one step of
 * every other one).  Every script runs in a child process with a fresh engine.
 *
 * usage: h1 SCRIPTS OUT [first [count]]
 * script file: one script per line, ops separated by ';', fields by ' '.
 *   the first op is: cfg <id> <keyset> <valset> <storages> <iterscan> <flags>
 */
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <mutex>
#include <set>
#include <thread>

#include "common.h"
#include "limestone/api/datastore.h"
#ifdef HV_SCHED
#include <malloc.h>
#include <sys/personality.h>
#include "sched.h"
#endif

using namespace shirakami;
using namespace hv;

// ---------------------------------------------------------------- gates

namespace gate {

struct th {
    int permits{0};
    bool sleeping{false};
    bool running{false}; // in a concurrent section
    bool again{false};   // one more round in the concurrent section
    void* sched{nullptr};
    bool done{false};
};

std::mutex m;
std::condition_variable cv;
std::vector<th*> threads; // engine threads, creation order
std::atomic<bool> active{false};
std::atomic<bool> free_run{false};
thread_local th* self = nullptr;
thread_local bool inside = false; // the waiting below is the gate's own

bool quiet_locked() {
    for (auto* t : threads) {
        if (!t->done && !(t->sleeping && t->permits == 0)) return false;
    }
    return true;
}

bool wait_quiet() {
    std::unique_lock<std::mutex> lk{m};
    return cv.wait_for(lk, std::chrono::seconds(8), [] { return quiet_locked(); });
}

bool step(th* t) {
    std::unique_lock<std::mutex> lk{m};
    if (t->done) return true;
    t->permits = 1;
    cv.notify_all();
    return cv.wait_for(lk, std::chrono::seconds(8), [] { return quiet_locked(); });
}

void do_sleep() {
    std::unique_lock<std::mutex> lk{m, std::defer_lock};
    inside = true;
#ifdef HV_SCHED
    if (sched::controlled()) {
        if (self->again) {
            self->again = false;
            inside = false;
            sched::relax();
            return;
        }
        self->sleeping = true;
        self->running = false;
        sched::park();
        lk.lock();
    } else
#endif
    {
        lk.lock();
        self->sleeping = true;
    }
    cv.notify_all();
    cv.wait(lk, [] { return free_run.load() || self->permits > 0; });
    if (self->permits > 0) --self->permits;
    self->sleeping = false;
    [[maybe_unused]] bool r = self->running;
    lk.unlock();
    inside = false;
    if (free_run) {
        sched_yield();
        return;
    }
#ifdef HV_SCHED
    if (r) sched::join(self->sched);
#endif
}

#ifdef HV_SCHED
// one round of an engine thread, as one of the scheduled threads
void step_in(th* t) {
    if (t->done) return;
    if (t->running) {
        t->again = true;
    } else {
        // the thread may still be on its way to sleep
        sched::quiet q;
        std::unique_lock<std::mutex> lk{m};
        t->running = true;
        t->permits = 1;
        t->sleeping = false;
        t->sched = sched::wake(t->sched);
        cv.notify_all();
    }
    while (!t->done && t->running) sched::relax();
}
#endif

} // namespace gate

extern "C" {

int nanosleep(const struct timespec* r, struct timespec* rem) {
#ifdef HV_SCHED
    if (gate::self == nullptr && sched::controlled()) {
        sched::relax();
        return 0;
    }
#endif
    if (gate::self != nullptr) {
        gate::do_sleep();
        return 0;
    }
    return clock_nanosleep(CLOCK_REALTIME, 0, r, rem);
}

int clock_nanosleep(clockid_t c, int f, const struct timespec* r, struct timespec* rem) {
#ifdef HV_SCHED
    if (gate::self == nullptr && sched::controlled()) {
        sched::relax();
        return 0;
    }
#endif
    if (gate::self != nullptr) {
        gate::do_sleep();
        return 0;
    }
    using fn = int (*)(clockid_t, int, const struct timespec*, struct timespec*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "clock_nanosleep")); // NOLINT
    return real(c, f, r, rem);
}

int usleep(useconds_t us) {
    struct timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}

// waiting on a condition variable is sleeping as well
static bool wait_on(pthread_mutex_t* m) {
    if (gate::self != nullptr && !gate::inside) {
        pthread_mutex_unlock(m);
        gate::do_sleep();
        pthread_mutex_lock(m);
        return true;
    }
#ifdef HV_SCHED
    if (gate::self == nullptr && sched::controlled()) {
        pthread_mutex_unlock(m);
        sched::relax();
        pthread_mutex_lock(m);
        return true;
    }
#endif
    return false;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (wait_on(m)) return 0;
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static fn real = reinterpret_cast<fn>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2")); // NOLINT
    return real(c, m);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (wait_on(m)) return ETIMEDOUT;
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static fn real = reinterpret_cast<fn>(dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2")); // NOLINT
    return real(c, m, t);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (wait_on(m)) return ETIMEDOUT;
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_cond_clockwait")); // NOLINT
    return real(c, m, k, t);
}

struct start_arg {
    void* (*f)(void*);
    void* a;
    gate::th* t;
    int no;
};

static void* trampoline(void* p) {
    auto* s = static_cast<start_arg*>(p);
    auto* f = s->f;
    auto* a = s->a;
    gate::self = s->t;
#ifdef HV_SCHED
    sched::act_as(s->no);
#endif
    delete s; // NOLINT
    void* r = f(a);
    {
        std::lock_guard<std::mutex> lk{gate::m};
        gate::self->done = true;
        gate::cv.notify_all();
    }
    gate::self = nullptr;
    return r;
}

int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create")); // NOLINT
    if (!gate::active) return real(t, at, f, a);
    auto* h = new gate::th();                 // NOLINT
    auto* s = new start_arg{f, a, h, 0};      // NOLINT
    {
        std::lock_guard<std::mutex> lk{gate::m};
        gate::threads.push_back(h);
        s->no = 150 + static_cast<int>(gate::threads.size() % 100);
    }
    return real(t, at, trampoline, s);
}
}

// ---------------------------------------------------------------- driver

namespace shirakami {
extern Status check_commit(Token token); // asked for by the comments of commit
}

namespace {

int out_fd = -1;

void emit_raw(const std::string& s) {
    std::string l = s + "\n";
    const char* p = l.data();
    std::size_t n = l.size();
    while (n > 0) {
        auto w = ::write(out_fd, p, n);
        if (w <= 0) _exit(9);
        p += w;
        n -= w;
    }
}

std::atomic<bool> mute{false}; // what happens after a crash is not observed

// operations that belong to no session
const std::set<std::string> env_ops{"E", "B", "rdseq", "chkh", "relh", "limit", "fuse"};

thread_local int my_thread = 0; // of a concurrent section

void emit(const ev& e) {
    if (mute) return;
    if (my_thread == 0) {
        emit_raw(e.str());
    } else {
        auto x = e;
        emit_raw(x.i("th", my_thread).str());
    }
}

struct scan_st {
    ScanHandle h{};
    bool open{false};
};

struct sess {
    bool in{false};
    Token tok{};
    int tx{0};           // current or last transaction number, 0 = none
    bool waiting{false}; // commit requested, outcome pending
    std::map<int, scan_st> scans{};
};

struct handle_st {
    TxStateHandle h{};
    bool have{false};
};

struct driver {
    int ks{0};
    int vs{0};
    int nst{1};
    bool iter{false};
    int flags{0};
    std::unique_ptr<limestone::api::datastore> ds{};
    std::vector<std::unique_ptr<limestone::api::datastore>> old{};
    std::map<int, sess> ss{};
    std::map<int, Storage> st{};
    std::map<Storage, int> st_back{};
    std::map<int, handle_st> handles{};
    std::map<int, SequenceId> seqs{};
    gate::th* epoch_th{nullptr};
    int ntx{0};
    std::map<std::string, int> txids{};
    std::uint64_t dur{0};
    std::size_t log_seen{0};
    std::size_t max_log{0};
    int nrestore{0};
    std::set<int> made{};
    bool fired{false};
    limestone::api::image fuse_img{};

    static std::string stname(int p) { return "storage" + std::to_string(p); }

    int kid(std::string_view k) const {
        for (int i = 1; i <= 60; ++i) {
            if (key_of(ks, i) == k) return i;
        }
        if (k.size() > 1000 && k == std::string(k.size(), '\xff')) return 1000000 + static_cast<int>(k.size());
        return -1;
    }

    std::uint64_t cur_switched() {
#ifdef HV_SCHED
        sched::quiet q;
#endif
        return ds->switched_epoch();
    }

    void start(database_options::open_mode om, int restore_threads = 0) {
        database_options o{om};
        o.set_epoch_time(1000);
        o.set_iterator_based_scan(iter);
        o.set_waiting_resolver_threads((flags & 8) != 0 ? 1 : 2);
        o.set_index_restore_threads(static_cast<std::size_t>(restore_threads));
        gate::threads.clear();
        gate::free_run = false;
        gate::active = true;
        auto rc = init(o, ds.get());
        gate::active = false;
        emit(ev("init").s("rc", rc_name(rc)).i("lim", KVS_MAX_PARALLEL_THREADS));
        if (rc != Status::OK) _exit(0);
        if (!gate::wait_quiet()) hang("init");
        // which thread advances the epoch?
        epoch_th = nullptr;
        for (auto* t : gate::threads) {
            auto b = cur_switched();
            if (!gate::step(t)) hang("tick");
            if (cur_switched() != b) {
                epoch_th = t;
                break;
            }
        }
        if (epoch_th == nullptr) hang("epoch");
        register_durability_callback([this](durability_marker_type m) {
            if (mute) return;
            dur = m;
            emit(ev("durcb").i("m", static_cast<std::int64_t>(m)));
        });
    }

    void stop(bool force) {
        {
            std::lock_guard<std::mutex> lk{gate::m};
            gate::free_run = true;
            gate::cv.notify_all();
        }
        fin(force);
        for (auto* t : gate::threads) delete t; // NOLINT
        gate::threads.clear();
    }

    [[noreturn]] static void hang(const char* where) {
        emit(ev("hang").s("at", where));
        _exit(0);
    }

    void tick_epoch() {
        auto b = cur_switched();
#ifdef HV_SCHED
        if (sched::controlled()) gate::step_in(epoch_th);
        else
#endif
                if (!gate::step(epoch_th))
            hang("epoch");
        emit(ev("E").i("e", static_cast<std::int64_t>(cur_switched())).i("adv", static_cast<std::int64_t>(cur_switched() - b)));
    }

    void tick_bg() {
        emit(ev("B"));
        for (std::size_t i = 0; i < gate::threads.size(); ++i) {
            if (gate::threads[i] == epoch_th) continue;
#ifdef HV_SCHED
            if (sched::controlled()) {
                gate::step_in(gate::threads[i]);
                continue;
            }
#endif
            if (!gate::step(gate::threads[i])) hang("bg");
        }
    }

    bool held(Token t) {
        for (auto& x : ss) {
            if (x.second.in && x.second.tok == t) return true;
        }
        return false;
    }

    sess& se(int s) {
        auto& x = ss[s];
        if (!x.in) {
            auto old = x.tok;
            auto rc = enter(x.tok);
            emit(ev("enter").i("s", s).s("rc", rc_name(rc)).i("dup", rc == Status::OK && held(x.tok) ? 1 : 0));
            if (rc == Status::OK) x.in = true;
            else
                x.tok = old;
        }
        return x;
    }

    Storage sto(int p) {
        auto it = st.find(p);
        return it == st.end() ? static_cast<Storage>(987654321 + p) : it->second;
    }

    void result(int s) {
        auto r = transaction_result_info(ss[s].tok);
        if (!r) {
            emit(ev("result").i("s", s).i("t", ss[s].tx).s("r", "NULL"));
            return;
        }
        int k = 0;
        int p = 0;
        if (r->get_has_key_info()) k = kid(r->get_key());
        if (r->get_has_storage_name_info()) {
            for (int i = 1; i <= nst; ++i) {
                if (r->get_storage_name() == stname(i)) p = i;
            }
            if (p == 0) p = -1;
        }
        emit(ev("result").i("s", s).i("t", ss[s].tx).s("r", reason_name(r->get_reason_code())).i("hk", r->get_has_key_info() ? 1 : 0).i("k", k).i("hp", r->get_has_storage_name_info() ? 1 : 0).i("p", p));
    }

    void txid(int s) {
        auto& x = se(s);
        std::string id;
        auto rc = get_tx_id(x.tok, id);
        int n = 0;
        if (rc == Status::OK) n = txids.emplace(id, static_cast<int>(txids.size()) + 1).first->second;
        emit(ev("txid").i("s", s).i("t", x.tx).s("rc", rc_name(rc)).i("n", n).i("len", static_cast<std::int64_t>(id.size())).i("pfx", id.rfind("TID-", 0) == 0 ? 1 : 0));
    }

    void do_commit(int s, int mode) {
        auto& x = se(s);
        int tx = x.tx;
        if (mode == 2) { // asked again while the outcome is pending
            auto rc = commit(x.tok);
            emit(ev("recommit").i("s", s).i("t", tx).s("rc", rc_name(rc)));
            if (rc != Status::WARN_WAITING_FOR_OTHER_TX) return;
        } else if (mode == 0) {
            emit(ev("creq").i("s", s).i("t", tx).i("cb", 0));
            auto rc = commit(x.tok);
            if (rc == Status::WARN_WAITING_FOR_OTHER_TX) x.waiting = true;
            emit(ev("commit").i("s", s).i("t", tx).s("rc", rc_name(rc)).i("cb", 0));
        } else {
            emit(ev("creq").i("s", s).i("t", tx).i("cb", 1));
            auto ret = commit(x.tok, [this, s, tx](Status rc, reason_code r, durability_marker_type dm) {
                emit(ev("ccb").i("s", s).i("t", tx).s("rc", rc_name(rc)).s("r", reason_name(r)).i("dm", static_cast<std::int64_t>(dm)).i("dur", static_cast<std::int64_t>(dur)));
                ss[s].waiting = false;
            });
            if (!ret) x.waiting = true;
            emit(ev("commit").i("s", s).i("t", tx).s("rc", ret ? "TRUE" : "FALSE").i("cb", 1));
        }
        x.scans.clear();
    }

    // a closed cursor whose handle value has been handed out again
    bool recycled(int s, int h) {
        auto& x = ss[s];
        if (x.scans[h].open) return false;
        for (auto& y : ss) {
            for (auto& e : y.second.scans) {
                if (&e.second != &x.scans[h] && e.second.open && e.second.h == x.scans[h].h) return true;
            }
        }
        return false;
    }

    // Reading or moving a cursor that was closed is not defined by the engine;
    // its place is taken by another session's cursor or by none at all.
    ScanHandle usable(int s, int h) {
        auto& x = ss[s];
        if (x.scans[h].open) return x.scans[h].h;
        for (auto& y : ss) {
            if (y.first == s) continue;
            for (auto& e : y.second.scans) {
                if (e.second.open) return e.second.h;
            }
        }
        return nullptr;
    }

    // the transaction is over and its cursors with it
    static bool is_err(Status rc) { return static_cast<int>(rc) > static_cast<int>(Status::OK); }

    void read_cursor(int s, int h) {
        auto& x = ss[s];
        std::string k;
        std::string v;
        auto* hd = usable(s, h);
        auto rk = read_key_from_scan(x.tok, hd, k);
        auto rv = read_value_from_scan(x.tok, hd, v);
        if (is_err(rk) || is_err(rv)) x.scans.clear();
        emit(ev("rscan").i("s", s).i("t", x.tx).i("h", h).s("rc", rc_name(rk)).i("k", rk == Status::OK ? kid(k) : 0).s("rc2", rc_name(rv)).i("v", rv == Status::OK ? id_of_val(vs, v) : 0));
    }

    Status open(int s, int p, int lk, int le, int rk, int re, int mx, int rev, int h) {
        auto& x = se(s);
        auto e = [](int c) { return c == 0 ? scan_endpoint::EXCLUSIVE : c == 1 ? scan_endpoint::INCLUSIVE
                                                                               : scan_endpoint::INF; };
        ScanHandle hd{};
        auto rc = open_scan(x.tok, sto(p), key_of(ks, lk), e(le), key_of(ks, rk), e(re), hd, static_cast<std::size_t>(mx), rev != 0);
        if (rc == Status::OK) {
            x.scans[h].h = hd;
            x.scans[h].open = true;
        }
        if (is_err(rc)) x.scans.clear();
        emit(ev("oscan").i("s", s).i("t", x.tx).i("p", p).i("lk", lk).i("le", le).i("rk", rk).i("re", re).i("mx", mx).i("rev", rev).i("h", h).s("rc", rc_name(rc)));
        return rc;
    }

    Status nextc(int s, int h) {
        auto& x = ss[s];
        auto rc = next(x.tok, usable(s, h));
        if (is_err(rc)) x.scans.clear();
        emit(ev("nscan").i("s", s).i("t", x.tx).i("h", h).s("rc", rc_name(rc)));
        return rc;
    }

    void closec(int s, int h) {
        auto& x = ss[s];
        if (recycled(s, h)) return;
        auto rc = close_scan(x.tok, x.scans[h].h);
        x.scans[h].open = false;
        emit(ev("cscan").i("s", s).i("t", x.tx).i("h", h).s("rc", rc_name(rc)));
    }

    void full_scan(int s, int p, int lk, int le, int rk, int re, int mx, int rev) {
        const int h = (flags & 32) != 0 ? 99 - my_thread : 99; // a cursor of each thread
        if (open(s, p, lk, le, rk, re, mx, rev, h) != Status::OK) return;
        for (int i = 0; i < 200; ++i) {
            read_cursor(s, h);
            auto rc = nextc(s, h);
            if (rc != Status::OK) break;
        }
        closec(s, h);
    }

    int begin(int s, char ty, int wp, int rp, int rn) {
        auto& x = se(s);
        using T = transaction_options::transaction_type;
        transaction_options o{x.tok, ty == 'L' ? T::LONG : ty == 'R' ? T::READ_ONLY
                                                                     : T::SHORT};
        transaction_options::write_preserve_type w;
        std::set<Storage> pos;
        std::set<Storage> neg;
        for (int i = 1; i <= 10; ++i) {
            if ((wp >> i) & 1) w.push_back(sto(i));
            if ((rp >> i) & 1) pos.insert(sto(i));
            if ((rn >> i) & 1) neg.insert(sto(i));
        }
        o.set_write_preserve(w);
        o.set_read_area({pos, neg});
        if (my_thread != 0) emit(ev("breq").i("s", s));
        auto rc = tx_begin(o);
        if (rc == Status::OK) {
            x.tx = ++ntx;
            x.waiting = false;
            x.scans.clear();
        }
        emit(ev("begin").i("s", s).i("t", x.tx).s("ty", std::string(1, ty)).i("wp", wp).i("rp", rp).i("rn", rn).s("rc", rc_name(rc)).i("e", static_cast<std::int64_t>(cur_switched())));
        return rc == Status::OK ? x.tx : 0;
    }

    void write(const std::string& op, int s, int p, int k, int v, int blobs) {
        auto& x = se(s);
        std::string key = key_of(ks, k);
        std::vector<blob_id_type> bl;
        for (int i = 0; i < blobs; ++i) bl.push_back(static_cast<blob_id_type>(v * 10 + i));
        auto* bp = bl.empty() ? nullptr : bl.data();
        Status rc{};
        if (op == "insert") rc = insert(x.tok, sto(p), key, val_of(vs, v), bp, bl.size());
        if (op == "update") rc = update(x.tok, sto(p), key, val_of(vs, v), bp, bl.size());
        if (op == "upsert") rc = upsert(x.tok, sto(p), key, val_of(vs, v), bp, bl.size());
        if (op == "delete") rc = delete_record(x.tok, sto(p), key);
        if (is_err(rc)) x.scans.clear();
        emit(ev(op).i("s", s).i("t", x.tx).i("p", p).i("k", k).i("v", op == "delete" ? 0 : v).i("bl", blobs).s("rc", rc_name(rc)));
    }

    void read(const std::string& op, int s, int p, int k) {
        auto& x = se(s);
        std::string v;
        Status rc{};
        if (op == "search") rc = search_key(x.tok, sto(p), key_of(ks, k), v);
        else
            rc = exist_key(x.tok, sto(p), key_of(ks, k));
        if (is_err(rc)) x.scans.clear();
        emit(ev(op).i("s", s).i("t", x.tx).i("p", p).i("k", k).s("rc", rc_name(rc)).i("v", rc == Status::OK && op == "search" ? id_of_val(vs, v) : 0));
    }

    void bulk(int s, int p, int n, int v) {
        auto& x = se(s);
        int bad = 0;
        for (int i = 0; i < n; ++i) {
            char b[16];
            std::snprintf(b, sizeof(b), "zz%06d", i);
            if (upsert(x.tok, sto(p), b, val_of(vs, v)) != Status::OK) ++bad;
        }
        emit(ev("bulk").i("s", s).i("t", x.tx).i("p", p).i("n", n).i("v", v).i("bad", bad));
    }

    // ordinary operations on a key of the given length
    void longkey(const std::string& what, int s, int p, int len, int v) {
        auto& x = se(s);
        std::string key(static_cast<std::size_t>(len), '\xff');
        int k = 1000000 + len;
        std::string out;
        Status rc{};
        if (what == "insert") rc = insert(x.tok, sto(p), key, val_of(vs, v));
        if (what == "update") rc = update(x.tok, sto(p), key, val_of(vs, v));
        if (what == "upsert") rc = upsert(x.tok, sto(p), key, val_of(vs, v));
        if (what == "delete") rc = delete_record(x.tok, sto(p), key);
        if (what == "search") rc = search_key(x.tok, sto(p), key, out);
        if (what == "exist") rc = exist_key(x.tok, sto(p), key);
        if (what == "search" || what == "exist") {
            emit(ev(what).i("s", s).i("t", x.tx).i("p", p).i("k", k).s("rc", rc_name(rc)).i("v", rc == Status::OK && what == "search" ? id_of_val(vs, out) : 0));
        } else {
            emit(ev(what).i("s", s).i("t", x.tx).i("p", p).i("k", k).i("v", what == "delete" ? 0 : v).i("bl", 0).s("rc", rc_name(rc)));
        }
    }

    void end_tx(int s) {
        auto& x = ss[s];
        auto rc = abort(x.tok);
        x.scans.clear();
        emit(ev("abort").i("s", s).i("t", x.tx).s("rc", rc_name(rc)));
    }

    bool handle_live(TxStateHandle h) {
        for (auto& e : handles) {
            if (e.second.have && e.second.h == h) return true;
        }
        return false;
    }

    void list_st() {
        std::vector<std::string> v;
        auto rc = list_storage(v);
        std::vector<int> ids;
        int other = 0;
        for (auto& n : v) {
            int f = 0;
            for (int i = 1; i <= 12; ++i) {
                if (n == stname(i)) f = i;
            }
            if (f == 0) ++other;
            else
                ids.push_back(f);
        }
        std::sort(ids.begin(), ids.end());
        std::string a = "[";
        for (std::size_t i = 0; i < ids.size(); ++i) a += (i ? "," : "") + std::to_string(ids[i]);
        emit(ev("lstor").s("rc", rc_name(rc)).raw("l", a + "]").i("other", other));
    }

    void take_handles_after_restart() {
        ss.clear();
        auto before = st;
        st.clear();
        st_back.clear();
        handles.clear();
        for (int i = 1; i <= 12; ++i) {
            Storage o{};
            if (get_storage(stname(i), o) == Status::OK) {
                st[i] = o;
                st_back[o] = i;
            }
        }
        int lost = 0;
        int moved = 0;
        int extra = 0;
        for (auto& x : before) {
            if (st.count(x.first) == 0) {
                ++lost;
            } else if (st[x.first] != x.second) {
                ++moved;
            }
        }
        for (auto& x : st) extra += before.count(x.first) == 0 ? 1 : 0;
        emit(ev("reopen").i("lost", lost).i("moved", moved).i("extra", extra));
    }

    void restart(bool clean, int threads) {
        auto img = limestone::api::image{};
        if (fired) { // has happened inside an earlier call
            clean = false;
            img = std::move(fuse_img);
            stop(true);
            mute = false;
            fired = false;
        } else if (clean) {
            stop(false);
            img = ds->crash();
        } else {
            img = ds->crash();
            emit(ev("crash").i("dur", static_cast<std::int64_t>(img.durable)).i("reported", static_cast<std::int64_t>(dur)));
            mute = true;
            stop(true);
            mute = false;
        }
        ++nrestore;
        if (clean) emit(ev("shutdown").i("dur", static_cast<std::int64_t>(img.durable)).i("reported", static_cast<std::int64_t>(dur)));
        old.push_back(std::move(ds));
        ds = std::make_unique<limestone::api::datastore>(std::move(img));
        start(database_options::open_mode::RESTORE, threads);
        take_handles_after_restart();
    }

    // the crash happens n log operations from now, wherever that is; nothing
    // of what the process does from then on is seen any more
    void fuse(int n) {
        if (n <= 0) return;
        ds->set_fuse(static_cast<std::uint64_t>(n), [this](limestone::api::image const& i) {
            if (fired || mute) return;
            fuse_img = i;
            fired = true;
            emit(ev("crash").i("dur", static_cast<std::int64_t>(i.durable)).i("reported", static_cast<std::int64_t>(dur)));
            mute = true;
        });
    }

    void dump_log() {
        auto v = ds->all_entries();
        std::set<std::pair<std::uint64_t, std::uint64_t>> w;
        for (auto& e : v) w.emplace(e.wv.get_major(), e.wv.get_minor());
        std::map<std::pair<std::uint64_t, std::uint64_t>, int> rank;
        for (auto& x : w) rank.emplace(x, static_cast<int>(rank.size()) + 1);
        for (auto& e : v) {
            static const char* kn[] = {"put", "remove", "addst", "rmst"};
            auto it = st_back.find(static_cast<Storage>(e.st));
            int p = it == st_back.end() ? 0 : it->second;
            bool lob_ok = true;
            int val = e.kind == limestone::api::entry_kind::put ? id_of_val(vs, e.val) : 0;
            for (std::size_t i = 0; i < e.lobs.size(); ++i) {
                if (e.lobs[i] != static_cast<std::uint64_t>(val * 10) + i) lob_ok = false;
            }
            emit(ev("log").s("kind", kn[static_cast<int>(e.kind)]).i("p", p).i("k", p != 0 ? kid(e.key) : 0).i("v", p != 0 ? val : 0).i("wv", rank[{e.wv.get_major(), e.wv.get_minor()}]).i("maj", static_cast<std::int64_t>(e.wv.get_major())).i("ses", static_cast<std::int64_t>(e.session)).i("se", static_cast<std::int64_t>(e.session_epoch)).i("end", e.ended ? 1 : 0).i("nl", static_cast<std::int64_t>(e.lobs.size())).i("lok", lob_ok ? 1 : 0));
        }
        emit(ev("logend").i("perr", static_cast<std::int64_t>(ds->protocol_errors())));
    }

    // finish whatever is still open, wait for pending outcomes, then read all
    void epilogue() {
        for (auto& x : ss) {
            if (x.second.in && x.second.tx != 0 && !x.second.waiting) end_tx(x.first);
        }
        for (int i = 0; i < 40; ++i) {
            bool any = false;
            for (auto& x : ss) any = any || x.second.waiting;
            if (!any) break;
            for (auto& x : ss) {
                if (!x.second.waiting) continue;
                auto rc = check(x.first);
                if (rc != Status::WARN_WAITING_FOR_OTHER_TX) x.second.waiting = false;
            }
            tick_epoch();
            tick_bg();
        }
        for (auto& x : ss) {
            if (x.second.waiting) {
                emit(ev("stuck").i("s", x.first).i("t", x.second.tx));
                _exit(0);
            }
        }
        final_read('S');
        tick_epoch();
        tick_bg();
        tick_epoch();
        final_read('R');
    }

    Status check(int s) {
        auto rc = shirakami::check_commit(ss[s].tok);
        emit(ev("check").i("s", s).i("t", ss[s].tx).s("rc", rc_name(rc)));
        return rc;
    }

    void final_read(char ty) {
        constexpr int s = 9;
        if (!se(s).in || begin(s, ty, 0, 0, 0) == 0) return;
        if (ty == 'R') tick_epoch();
        for (int p = 1; p <= nst; ++p) {
            if (st.count(p) != 0) {
                full_scan(s, p, 1, 2, 1, 2, 0, 0);
            } else if (made.count(p) != 0) { // gone with all it held
                emit(ev("nost").i("s", s).i("t", ss[s].tx).i("p", p));
            }
        }
        do_commit(s, 0);
        emit(ev("final").i("t", ss[s].tx).s("ty", std::string(1, ty)));
    }

    void mkst(int p, int id, int pl) {
        Storage o{};
        storage_option so{};
        if (id > 0) so.id(static_cast<storage_option::id_t>(id));
        if (pl > 0) so.payload(val_of(vs, pl));
        auto rc = create_storage(stname(p), o, so);
        bool dup = st_back.count(o) != 0;
        if (rc == Status::OK) {
            st[p] = o;
            st_back[o] = p;
            made.insert(p);
        }
        emit(ev("mkst").i("p", p).s("rc", rc_name(rc)).i("id", id).i("pl", pl).i("dup", rc == Status::OK && dup ? 1 : 0));
    }

    void getst(int p) {
        Storage o{};
        auto rc = get_storage(stname(p), o);
        emit(ev("getst").i("p", p).s("rc", rc_name(rc)).i("same", rc == Status::OK && st.count(p) != 0 && st[p] == o ? 1 : 0));
    }

    void optst(int p) {
        storage_option so{};
        auto rc = storage_get_options(sto(p), so);
        emit(ev("optst").i("p", p).s("rc", rc_name(rc)).i("id", rc == Status::OK ? (so.id() == storage_id_undefined ? 0 : static_cast<std::int64_t>(so.id())) : 0).i("pl", rc == Status::OK ? (so.payload().empty() ? 0 : id_of_val(vs, so.payload())) : 0));
    }

    // ops[i] .. ops[j] at the same time: par <seed>; ...; join
    void par(const std::vector<std::vector<std::string>>& ops, std::size_t i, std::size_t j) {
        // every session is a thread; epochs and background work are one, except
        // for an epoch asked for by a long transaction's begin
        std::map<int, std::vector<std::vector<std::string>>> prog;
        for (std::size_t q = i + 1; q < j; ++q) {
            auto o = ops[q];
            int w = 100;
            if (o[0][0] == '@') { // given
                w = std::stoi(o[0].substr(1));
                o.erase(o.begin());
            } else if (env_ops.count(o[0]) == 0) {
                w = std::stoi(o[1]);
            } else if (o[0] == "E" && ops[q - 1][0] == "begin" && ops[q - 1][2] != "S") {
                w = std::stoi(ops[q - 1][1]);
            }
            prog[w].push_back(o);
        }
        emit(ev("par").i("n", static_cast<std::int64_t>(prog.size())));
#ifdef HV_SCHED
        std::vector<std::function<void()>> bodies;
        for (auto& e : prog) {
            bodies.emplace_back([this, &e] {
                my_thread = e.first;
                for (auto& o : e.second) {
                    if ((flags & 32) != 0) emit(ev("inv"));
                    exec(o);
                    if ((flags & 32) != 0) emit(ev("ret"));
                }
            });
        }
        sched::run(std::stoull(ops[i][1]), bodies);
#else
        for (std::size_t q = i + 1; q < j; ++q) {
            auto o = ops[q];
            if (o[0][0] == '@') {
                my_thread = std::stoi(o[0].substr(1));
                o.erase(o.begin());
            }
            if ((flags & 32) != 0) emit(ev("inv"));
            exec(o);
            if ((flags & 32) != 0) emit(ev("ret"));
        }
        my_thread = 0;
#endif
        emit(ev("join"));
    }

    void exec(const std::vector<std::string>& o) {
        const auto& c = o[0];
        auto n = [&](std::size_t j) { return j < o.size() ? std::stoi(o[j]) : 0; };
#ifdef HV_SCHED
        if (my_thread != 0) sched::act_as(my_thread);
        else
            sched::act_as(env_ops.count(c) != 0 || o.size() < 2 ? 100 : n(1) % 90);
#endif
        if (fired) {
            // the process is gone until it is started again
            if (c != "crash" && c != "shutdown" && c != "final") return;
            if (c == "final") restart(false, 0);
        }
        static const std::set<std::string> tx_ops{"commit", "abort", "insert", "update", "upsert", "delete", "search", "exist", "scan", "oscan", "rscan", "nscan", "cscan", "size", "bulk", "longkey", "upseq"};
        // after submitting commit the client must wait for the outcome
        if (tx_ops.count(c) != 0 && ss[n(1)].waiting && !((flags & 16) != 0 && (c == "abort" || c == "commit"))) return;
        static const std::set<std::string> se_ops{"begin", "check", "acqh", "txid", "result", "prio"};
        if ((tx_ops.count(c) != 0 || se_ops.count(c) != 0) && !se(n(1)).in) return;
        if (c == "E") {
            for (int j = 0; j < std::max(1, n(1)); ++j) tick_epoch();
        } else if (c == "B") {
            for (int j = 0; j < std::max(1, n(1)); ++j) tick_bg();
        } else if (c == "begin") {
            // the outcome of a pending commit is picked up first
            if (ss[n(1)].waiting && check(n(1)) != Status::WARN_WAITING_FOR_OTHER_TX) ss[n(1)].waiting = false;
            begin(n(1), o[2][0], n(3), n(4), n(5));
        } else if (c == "commit") {
            do_commit(n(1), ss[n(1)].waiting ? 2 : n(2));
        } else if (c == "abort") {
            se(n(1));
            end_tx(n(1));
        } else if (c == "check") {
            se(n(1));
            auto rc = check(n(1));
            if (rc != Status::WARN_WAITING_FOR_OTHER_TX) ss[n(1)].waiting = false;
        } else if (c == "insert" || c == "update" || c == "upsert" || c == "delete") {
            write(c, n(1), n(2), n(3), n(4), n(5));
        } else if (c == "search" || c == "exist") {
            read(c, n(1), n(2), n(3));
        } else if (c == "scan") {
            full_scan(n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8));
        } else if (c == "oscan") {
            open(n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8), n(9));
        } else if (c == "rscan") {
            se(n(1));
            read_cursor(n(1), n(2));
        } else if (c == "nscan") {
            se(n(1));
            nextc(n(1), n(2));
        } else if (c == "cscan") {
            se(n(1));
            closec(n(1), n(2));
        } else if (c == "size") {
            auto& x = se(n(1));
            std::size_t z{0};
            auto rc = scannable_total_index_size(x.tok, usable(n(1), n(2)), z);
            emit(ev("size").i("s", n(1)).i("t", x.tx).i("h", n(2)).s("rc", rc_name(rc)).i("n", rc == Status::OK ? static_cast<std::int64_t>(z) : 0));
        } else if (c == "bulk") {
            bulk(n(1), n(2), n(3), n(4));
        } else if (c == "longkey") {
            longkey(o[2], n(1), n(3), n(4), n(5));
        } else if (c == "result") {
            se(n(1));
            result(n(1));
        } else if (c == "txid") {
            txid(n(1));
        } else if (c == "enter") {
            if (ss[n(1)].in) return;
            Token t{};
            auto rc = enter(t);
            int dup = held(t) ? 1 : 0;
            if (rc == Status::OK) {
                ss[n(1)] = {};
                ss[n(1)].tok = t;
                ss[n(1)].in = true;
            }
            emit(ev("enter").i("s", n(1)).s("rc", rc_name(rc)).i("dup", rc == Status::OK ? dup : 0));
        } else if (c == "leave") {
            auto& x = ss[n(1)];
            if (x.waiting) return; // would wait for the background
            if (!x.in && (held(x.tok) || my_thread != 0)) return; // someone else's by now
            auto was = x.in;
            if (my_thread != 0) x.in = false; // from here on another thread may get it
            auto rc = leave(x.tok);
            if (rc == Status::OK) {
                x.in = false;
                x.scans.clear();
            } else {
                x.in = was;
            }
            emit(ev("leave").i("s", n(1)).i("t", x.tx).s("rc", rc_name(rc)));
            x.tx = 0;
        } else if (c == "acqh") {
            auto& x = se(n(1));
            if (x.waiting) return; // must be acquired before the commit request
            TxStateHandle h{};
            auto rc = acquire_tx_state_handle(x.tok, h);
            int dup = 0;
            for (auto& e : handles) {
                if (e.first != x.tx && e.second.have && e.second.h == h) dup = 1;
            }
            int same = handles.count(x.tx) != 0 && handles[x.tx].have && handles[x.tx].h == h ? 1 : 0;
            if (rc == Status::OK) handles[x.tx] = {h, true};
            emit(ev("acqh").i("s", n(1)).i("t", x.tx).s("rc", rc_name(rc)).i("dup", dup).i("same", same).i("undef", h == undefined_handle ? 1 : 0));
        } else if (c == "relh") { // by transaction number
            auto& e = handles[n(1)];
            if (!e.have && handle_live(e.h)) return; // value in use again
            auto rc = release_tx_state_handle(e.h);
            emit(ev("relh").i("t", n(1)).s("rc", rc_name(rc)).i("had", e.have ? 1 : 0));
            e.have = false;
        } else if (c == "chkh") {
            auto& e = handles[n(1)];
            if (!e.have && handle_live(e.h)) return;
            TxState out{};
            auto rc = check_tx_state(e.h, out);
            emit(ev("chkh").i("t", n(1)).s("rc", rc_name(rc)).i("had", e.have ? 1 : 0).s("k", rc == Status::OK ? to_string_view(out.state_kind()) : "").i("dur", static_cast<std::int64_t>(dur)).i("e", static_cast<std::int64_t>(cur_switched())));
        } else if (c == "prio") {
            auto& x = se(n(1));
            bool out{};
            auto rc = check_ltx_is_highest_priority(x.tok, out);
            emit(ev("prio").i("s", n(1)).i("t", x.tx).s("rc", rc_name(rc)).i("b", rc == Status::OK && out ? 1 : 0));
        } else if (c == "mkst") {
            mkst(n(1), n(2), n(3));
        } else if (c == "rmst") {
            // no transaction may be using the storage
            bool busy = false;
            for (auto& x : ss) {
                busy = busy || x.second.waiting;
                if (x.second.in && x.second.tx != 0 && !x.second.waiting) end_tx(x.first);
            }
            if (busy) return;
            auto rc = delete_storage(sto(n(1)));
            if (rc == Status::OK) {
                st_back.erase(st[n(1)]);
                st.erase(n(1));
                made.erase(n(1));
            }
            emit(ev("rmst").i("p", n(1)).s("rc", rc_name(rc)));
        } else if (c == "getst") {
            getst(n(1));
        } else if (c == "lstor") {
            list_st();
        } else if (c == "optst") {
            optst(n(1));
        } else if (c == "setopt") {
            storage_option so{};
            if (n(2) > 0) so.id(static_cast<storage_option::id_t>(n(2)));
            if (n(3) > 0) so.payload(val_of(vs, n(3)));
            auto rc = storage_set_options(sto(n(1)), so);
            emit(ev("setopt").i("p", n(1)).i("id", n(2)).i("pl", n(3)).s("rc", rc_name(rc)));
        } else if (c == "mkseq" || c == "rmseq") {
            // not to be called while transactions run
            bool busy = false;
            for (auto& x : ss) {
                busy = busy || x.second.waiting;
                if (x.second.in && x.second.tx != 0 && !x.second.waiting) end_tx(x.first);
            }
            if (busy) return;
            if (c == "rmseq") {
                auto rc = delete_sequence(seqs.count(n(1)) != 0 ? seqs[n(1)] : 123456789);
                emit(ev("rmseq").i("q", n(1)).s("rc", rc_name(rc)));
                return;
            }
            SequenceId id{};
            auto rc = create_sequence(&id);
            int dup = 0;
            for (auto& e : seqs) {
                if (e.second == id) dup = 1;
            }
            if (rc == Status::OK) seqs[n(1)] = id;
            emit(ev("mkseq").i("q", n(1)).s("rc", rc_name(rc)).i("dup", dup));
        } else if (c == "upseq") {
            auto& x = se(n(1));
            auto rc = update_sequence(x.tok, seqs.count(n(2)) != 0 ? seqs[n(2)] : 123456789, static_cast<SequenceVersion>(n(3)), n(4));
            emit(ev("upseq").i("s", n(1)).i("t", x.tx).i("q", n(2)).i("ver", n(3)).i("v", n(4)).s("rc", rc_name(rc)));
        } else if (c == "rdseq") {
            SequenceVersion ver{};
            SequenceValue v{};
            if (my_thread != 0) emit(ev("rreq").i("q", n(1)));
            auto rc = read_sequence(seqs.count(n(1)) != 0 ? seqs[n(1)] : 123456789, &ver, &v);
            emit(ev("rdseq").i("q", n(1)).s("rc", rc_name(rc)).i("ver", rc == Status::OK ? static_cast<std::int64_t>(ver) : 0).i("v", rc == Status::OK ? v : 0).i("dur", static_cast<std::int64_t>(dur)).i("e", static_cast<std::int64_t>(cur_switched())));
        } else if (c == "limit") {
            ds->set_limit(n(1) < 0 ? ~0ULL : cur_switched() + static_cast<std::uint64_t>(n(1)));
            emit(ev("limit").i("n", n(1)));
        } else if (c == "crash") {
            restart(false, n(1));
        } else if (c == "shutdown") {
            restart(true, n(1));
        } else if (c == "fuse") {
            fuse(n(1));
        } else if (c == "log") {
            dump_log();
        } else if (c == "init") {
            auto rc = init({}, ds.get());
            emit(ev("init2").s("rc", rc_name(rc)));
        } else if (c == "final") {
            epilogue();
        } else if (c == "finalr") {
            final_read(n(1) == 0 ? 'S' : 'R');
        } else if (c == "join") {
            return;
        } else {
            std::cerr << "unknown op " << c << std::endl;
            _exit(7);
        }
    }

    void run(const std::vector<std::vector<std::string>>& ops) {
        ds = std::make_unique<limestone::api::datastore>();
        {
            const auto& c = ops[0];
            auto n = [&](std::size_t i) { return i < c.size() ? std::stoi(c[i]) : 0; };
            ks = n(2);
            vs = n(3);
            nst = n(4);
            iter = n(5) != 0;
            flags = n(6);
        }
        start(database_options::open_mode::CREATE);
#ifdef HV_SCHED
        sched::track(true);
#endif
        if ((flags & 1) == 0) {
            for (int p = 1; p <= nst; ++p) mkst(p, 0, 0);
        }
        for (std::size_t i = 1; i < ops.size(); ++i) {
            if (ops[i][0] != "par") {
                exec(ops[i]);
                continue;
            }
            std::size_t j = i + 1;
            while (j < ops.size() && ops[j][0] != "join") ++j;
            if (!fired) par(ops, i, j);
            i = j;
        }
        emit(ev("end"));
        if ((flags & 4) != 0) {
            stop(true);
            emit(ev("fin"));
        }
    }
};

} // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
#ifdef HV_SCHED
    // addresses must not differ from run to run
    if ((personality(0xffffffff) & ADDR_NO_RANDOMIZE) == 0 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 &&
        std::getenv("HV_AGAIN") == nullptr) {
        setenv("HV_AGAIN", "1", 1);
        execv("/proc/self/exe", argv);
    }
    mallopt(M_ARENA_MAX, 1);
#endif
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    long first = argc > 3 ? atol(argv[3]) : 0;
    long count = argc > 4 ? atol(argv[4]) : -1;
    int tmo = std::getenv("H1_TIMEOUT") != nullptr ? atoi(std::getenv("H1_TIMEOUT")) : 20;
    if (out == nullptr) return 2;
    std::string line;
    long no = 0;
    for (; std::getline(in, line); ++no) {
        if (no < first || line.empty()) continue;
        if (count >= 0 && no >= first + count) break;
        std::vector<std::vector<std::string>> ops;
        std::stringstream ls(line);
        std::string o;
        while (std::getline(ls, o, ';')) {
            std::stringstream os(o);
            std::vector<std::string> f;
            std::string x;
            while (os >> x) f.push_back(x);
            if (!f.empty()) ops.push_back(f);
        }
        if (ops.empty()) continue;
        int pf[2];
        if (pipe(pf) != 0) return 2;
        std::fflush(out);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            ::close(pf[0]);
            out_fd = pf[1];
            if (std::getenv("H1_VERBOSE") == nullptr) {
                int dn = ::open("/dev/null", O_WRONLY);
                ::dup2(dn, 1);
                if (std::getenv("H1_STDERR") == nullptr) ::dup2(dn, 2);
            }
            static driver d;
            d.run(ops);
            _exit(0);
        }
        ::close(pf[1]);
        std::string buf;
        bool timeout = false;
        char tmp[65536];
        auto t0 = time(nullptr);
        for (;;) {
            pollfd p{pf[0], POLLIN, 0};
            int pr = poll(&p, 1, 1000);
            if (pr > 0) {
                auto r = ::read(pf[0], tmp, sizeof(tmp));
                if (r <= 0) break;
                buf.append(tmp, static_cast<std::size_t>(r));
            } else if (time(nullptr) - t0 > tmo) {
                timeout = true;
                break;
            }
        }
        if (timeout) kill(pid, SIGKILL);
        ::close(pf[0]);
        int stt = 0;
        waitpid(pid, &stt, 0);
        if (timeout) buf += "{\"o\":\"hang\",\"at\":\"call\"}\n";
        else if (WIFSIGNALED(stt))
            buf += "{\"o\":\"died\",\"sig\":" + std::to_string(WTERMSIG(stt)) + "}\n";
        else if (WEXITSTATUS(stt) != 0)
            buf += "{\"o\":\"died\",\"sig\":" + std::to_string(-WEXITSTATUS(stt)) + "}\n";
        std::string arr;
        std::stringstream bs(buf);
        std::string l;
        while (std::getline(bs, l)) {
            if (l.empty() || l.back() != '}') continue;
            if (!arr.empty()) arr += ",";
            arr += l;
        }
        std::fprintf(out, "{\"id\":%ld,\"ev\":[%s]}\n", no, arr.c_str());
    }
    std::fclose(out);
    return 0;
}
