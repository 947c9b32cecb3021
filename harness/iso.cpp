// Engine "iso" (C15, C16, C17, C14): total order isolation, non blocking operations,
// rolling schema upgrade, pause/desync and causal waits of concurrent sessions on one
// server against a scripted provider. Oracles: a reference of the retry loop evaluated
// over the recorded provider calls, and balance automata for desync/pause.
#include "svc.hpp"
#include <chrono>
using namespace vf;
namespace
{
    typedef wsrep::provider P;
    typedef enum wsrep::provider::status PS;
    typedef wsrep::client_state CS;
    const wsrep::id gid("group");
    wsrep::gtid gt(long long s) { return wsrep::gtid(gid, wsrep::seqno(s)); }
    const PS statuses[] = { P::error_connection_failed, P::error_certification_failed, P::error_provider_failed, P::error_bf_abort, P::error_warning,
                            P::error_transaction_missing, P::error_size_exceeded, P::error_not_implemented, P::error_not_allowed, P::error_fatal, P::error_unknown };

    struct Attempt { uint64_t at, until; PS st; wsrep::gtid gtid, in; int flags; bool left; uint64_t sleeps; };
    struct World;
    struct Sess;
    struct Prov : public FakeProvider
    {
        World& w;
        Prov(wsrep::server_state& s, World& ww) : FakeProvider(s), w(ww) { }
        S enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override;
        S leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        int desync() override; int resync() override; wsrep::seqno pause() override; int resume() override;
        std::pair<wsrep::gtid, S> causal_read(int) const override;
    };
    struct CService : public NullClientService
    {
        Sess* s = nullptr;
        bool interrupted(wsrep::unique_lock<wsrep::mutex>& lock) const override;
    };
    struct Service : public NullServerService
    {
        World* w = nullptr;
        int wait_committing_transactions(int) override;
    };
    struct Sess
    {
        World& w; int id; std::string name; Mutex mx; Cond cv; CService svc; TestClientState cs;
        std::vector<Attempt> att; bool intr = false, intr_seen = false; int intr_calls = 0; bool quiet = false;
        const wsrep::key_array* keys = nullptr; const void* buf = nullptr; size_t buflen = 0; std::string lerr;
        int leaves = 0; PS leave_st = P::success; bool leave_fail = false;
        wsrep::gtid last, nbo_begin;
        std::pair<wsrep::gtid, PS> causal; int causal_calls = 0, causal_timeout = 0;
        Sess(World& ww, int i, enum CS::mode m);
        void run(); void cmd(); void hp();
        bool enter(bool nbo1, bool nbo2); void leave_check(int ret, int before, const wsrep::gtid& g);
        void toi(); void nbo(); void rsu(); void pause(); void dpause(); void desync(); void causal_wait(); void applied_nbo();
        void check_attempts(uint64_t deadline, int ret, int flags, const wsrep::gtid& in, bool nbo2);
        void idle(const char* where);
        wsrep::mutable_buffer err(); wsrep::mutable_buffer eb;
    };
    struct World
    {
        Mutex smx{"server"}; Cond scv{"server"}; Service svc; TestServerState ss; Prov* prov = nullptr;
        std::vector<std::unique_ptr<Sess>> s;
        std::map<uint64_t, Sess*> by_id;
        long long seq = 0; Sess* holder = nullptr; wsrep::gtid held;
        int nsess = 1; int fail_rate = 0; bool strict_time = false;
        // desync / pause balance
        int desynced = 0, desyncs = 0, resyncs = 0; bool paused = false; int pauses = 0, resumes = 0; int in_pause = 0;
        int want_resume = 0;   // pause owners
        bool resume_broken = false;
        int resync_fails = 0; bool no_resync_fail = false;
        World() : svc(), ss(smx, scv, svc, "s1") { svc.w = this; }
    };

    // ---- provider -----------------------------------------------------
    PS Prov::enter_toi(wsrep::client_id c, const wsrep::key_array& k, const wsrep::const_buffer& b, wsrep::ws_meta& m, int flags)
    {
        Sess* s = w.by_id[c.get()];
        VCHECK("C15 C16", s, "enter_toi for unknown client %llu", (unsigned long long)c.get());
        VCHECK("C04 C26 C15", !s->mx.mine() && !w.smx.mine(), "%s: mutex held in enter_toi", s->name.c_str());
        VCHECK("C15 C16", s->keys && k.size() == s->keys->size() && b.data() == s->buf && b.size() == s->buflen, "%s: keys or data changed on the way to the provider", s->name.c_str());
        if (s->keys) for (size_t i = 0; i < k.size(); ++i) VCHECK("C15 C16", k[i].type() == (*s->keys)[i].type() && k[i].size() == (*s->keys)[i].size(), "key %zu changed", i);
        VCHECK("C15 C16", w.holder != s, "%s: total order isolation entered again before the failed attempt was left", s->name.c_str());
        Attempt a;
        a.at = vnow(); a.in = m.gtid(); a.flags = flags; a.left = false; a.sleeps = 0;
        s->intr_seen = false; s->intr_calls = 0;
        yield();
        if (chance(1, 6)) vadvance(uint64_t(draw(5)) * 100000000ULL);
        PS st = chance(uint32_t(w.fail_rate), 10) ? (chance(2, 3) ? statuses[draw(2)] : statuses[draw(11)]) : P::success;
        bool ordered = st == P::success || chance(1, 3);
        if (ordered)
        {
            wait_for("TOI order", [this] { return w.holder == nullptr; });
            w.holder = s;
            a.gtid = gt(++w.seq);
            w.held = a.gtid;
            m = wsrep::ws_meta(a.gtid, wsrep::stid(wsrep::id("node"), wsrep::transaction_id::undefined(), c), wsrep::seqno(w.seq - 1), flags);
        }
        else m = wsrep::ws_meta();
        a.until = vnow(); a.st = st;
        s->att.push_back(a);
        trace("%s enter_toi flags=%d in=%lld -> %d gtid %lld t=%.1f", s->name.c_str(), flags, a.in.seqno().get(), (int)st, a.gtid.seqno().get(), vnow() / 1e9);
        mix(uint64_t(st) * 4 + ordered);
        return st;
    }
    PS Prov::leave_toi(wsrep::client_id c, const wsrep::ws_meta& m, const wsrep::mutable_buffer& err)
    {
        Sess* s = w.by_id[c.get()];
        VCHECK("C15 C16", s, "leave_toi for unknown client");
        trace("%s leave_toi %lld", s->name.c_str(), m.seqno().get());
        VCHECK("C15 C16", !s->att.empty() && !s->att.back().gtid.is_undefined(), "%s: left isolation which was not entered", s->name.c_str());
        VCHECK("C15 C16", w.holder == s, "%s: isolation left more than once or out of turn", s->name.c_str());
        VCHECK("C15 C16", m.gtid() == w.held, "%s: left isolation with position %lld instead of %lld", s->name.c_str(), m.seqno().get(), w.held.seqno().get());
        Attempt& a = s->att.back();
        if (a.st == P::success) VCHECK("C15 C16", std::string(err.data(), err.size()) == s->lerr, "%s: error data changed on the way", s->name.c_str());
        else VCHECK("C15 C16", err.size() == 0, "error data for a failed attempt");
        a.left = true;
        ++s->leaves;
        w.holder = nullptr;
        yield();
        return a.st == P::success ? s->leave_st : chance(1, 4) ? P::error_connection_failed : P::success;
    }
    int Prov::desync()
    {
        yield();
        int r = chance(uint32_t(w.fail_rate), 12);
        trace("desync -> %d", r);
        if (!r) { ++w.desyncs; ++w.desynced; }
        return r;
    }
    int Prov::resync()
    {
        trace("resync (desynced %d)", w.desynced);
        VCHECK("C17", w.desynced > 0, "resync without a successful desync");
        --w.desynced; ++w.resyncs;
        return !w.no_resync_fail && chance(uint32_t(w.fail_rate), 40) ? (++w.resync_fails, 1) : 0;
    }
    wsrep::seqno Prov::pause()
    {
        VCHECK("C17", !w.paused && !w.in_pause, "two pauses in effect");
        ++w.in_pause;
        yield(); yield();
        int r = chance(uint32_t(w.fail_rate), 12);
        --w.in_pause;
        trace("pause -> %d", r);
        if (r) { label("pause failed"); return wsrep::seqno::undefined(); }
        w.paused = true; ++w.pauses;
        return wsrep::seqno(w.seq);
    }
    int Prov::resume()
    {
        trace("resume");
        VCHECK("C17", w.paused, "resume while not paused");
        if (w.resume_broken) return 1;
        w.paused = false; ++w.resumes;
        return 0;
    }
    std::pair<wsrep::gtid, PS> Prov::causal_read(int t) const
    {
        Sess* s = nullptr;
        for (auto& x : w.s) if (x->causal_calls < 0) s = x.get();
        VCHECK("C14", s, "unexpected causal read");
        s->causal_calls = 1; s->causal_timeout = t;
        return s->causal;
    }
    int Service::wait_committing_transactions(int t) { VCHECK("C17", t == 5, "timeout changed"); yield(); return chance(uint32_t(w->fail_rate), 12); }
    bool CService::interrupted(wsrep::unique_lock<wsrep::mutex>& lock) const
    {
        VCHECK("C15 C04", lock.owns_lock() && s->mx.mine(), "interrupted() without the client mutex");
        ++s->intr_calls;
        if (chance(1, 12)) s->intr = true;
        if (s->intr) s->intr_seen = true;
        return s->intr;
    }

    // ---- sessions -----------------------------------------------------
    Sess::Sess(World& ww, int i, enum CS::mode m)
        : w(ww), id(i), name(strf("c%d", i)), mx("client"), cv("client"), svc(), cs(mx, cv, ww.ss, svc, uint64_t(i), m) { svc.s = this; ww.by_id[uint64_t(i)] = this; }
    wsrep::mutable_buffer Sess::err()
    {
        wsrep::mutable_buffer b;
        lerr.clear();
        if (chance(1, 3)) { lerr = strf("error %u", draw(100)); b.push_back(lerr.data(), lerr.data() + lerr.size()); }
        return b;
    }
    void Sess::idle(const char* where)
    {
        VCHECK("C15 C16 C17", cs.mode() == CS::m_local, "%s: mode %d after %s", name.c_str(), (int)cs.mode(), where);
        VCHECK("C15 C16", !cs.in_toi(), "%s: in isolation after %s", name.c_str(), where);
        VCHECK("C15 C16", cs.toi_meta().gtid().is_undefined(), "%s: isolation position %lld kept after %s", name.c_str(), cs.toi_meta().seqno().get(), where);
        VCHECK("C15 C16", w.holder != this, "%s: isolation not left after %s", name.c_str(), where);
        VCHECK("C14", cs.last_written_gtid() == last, "%s: last written %lld instead of %lld after %s", name.c_str(), cs.last_written_gtid().seqno().get(), last.seqno().get(), where);
    }
    void Sess::check_attempts(uint64_t deadline, int ret, int flags, const wsrep::gtid& in, bool nbo2)
    {
        const char* pr = flags == (wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit) ? "C15" : "C16 C15";
        const uint64_t end = vnow();
        VCHECK(pr, !att.empty(), "%s: provider was not called", name.c_str());
        if (att.size() > 1) label("retried");
        if (att.size() > 2) nontrivial();
        for (size_t i = 0; i < att.size(); ++i)
        {
            Attempt& a = att[i];
            bool lastone = i + 1 == att.size();
            VCHECK(pr, a.flags == flags, "%s: attempt with flags %d instead of %d", name.c_str(), a.flags, flags);
            VCHECK("C16 C15", a.in == in, "%s: attempt %zu referred to position %lld instead of %lld", name.c_str(), i, a.in.seqno().get(), in.seqno().get());
            bool retryable = a.st == P::error_certification_failed || a.st == P::error_connection_failed;
            if (!lastone)
            {
                VCHECK(pr, retryable, "%s: retried after status %d", name.c_str(), (int)a.st);
                VCHECK(pr, deadline != 0, "%s: retried although no deadline was given", name.c_str());
                uint64_t next = att[i + 1].at;
                VCHECK(pr, (w.strict_time ? next : a.until) < deadline, "%s: retried after the deadline", name.c_str());
                VCHECK(pr, a.gtid.is_undefined() || a.left, "%s: failed attempt with a position was not left before the retry", name.c_str());
            }
            else if (a.st != P::success)
            {
                VCHECK(pr, a.gtid.is_undefined() || a.left, "%s: failed attempt with a position was not left", name.c_str());
                if (retryable && deadline && end < deadline) VCHECK(pr, intr_seen, "%s: gave up before the deadline (status %d)", name.c_str(), (int)a.st);
            }
            else VCHECK(pr, !a.left, "%s: left isolation right after entering", name.c_str());
        }
        Attempt& a = att.back();
        VCHECK(pr, ret == (a.st != P::success), "%s: returned %d for status %d", name.c_str(), ret, (int)a.st);
        if (ret)
        {
            label("isolation failed");
            int e = cs.current_error(); PS es = cs.current_error_status();
            bool passed = deadline && end >= deadline, before = deadline && end < deadline;
            int want;
            if (!nbo2 && a.st == P::error_certification_failed) want = wsrep::e_deadlock_error;
            else if (nbo2 && a.st == P::error_provider_failed) want = wsrep::e_interrupted_error;
            else if (passed && (w.strict_time || a.until >= deadline)) want = wsrep::e_timeout_error;
            else if (before) want = wsrep::e_error_during_commit;
            else want = -1; // no deadline given: no rule which of timeout and commit error
            VCHECK(pr, want < 0 ? e == wsrep::e_timeout_error || e == wsrep::e_error_during_commit : e == want, "%s: error %d instead of %d for status %d (deadline %.1f, now %.1f)", name.c_str(), e, want, (int)a.st, deadline / 1e9, end / 1e9);
            if (e != wsrep::e_timeout_error) VCHECK(pr, es == a.st, "%s: error status %d instead of %d", name.c_str(), (int)es, (int)a.st);
        }
        else VCHECK(pr, cs.current_error() == wsrep::e_success, "%s: error %d after success", name.c_str(), (int)cs.current_error());
    }
    // one attempt to enter in the given phase; true if entered
    bool Sess::enter(bool nbo1, bool nbo2)
    {
        wsrep::key_array ks; std::vector<std::string> parts;
        uint32_t n = draw(3);
        for (uint32_t i = 0; i < n; ++i) { wsrep::key k(chance(1, 2) ? wsrep::key::shared : wsrep::key::exclusive); k.append_key_part("abc", 3); if (chance(1, 2)) k.append_key_part("d", 1); ks.push_back(k); }
        std::string data(size_t(draw(4)), 'x');
        wsrep::const_buffer b(data.data(), data.size());
        keys = &ks; buf = nbo2 ? nullptr : data.data(); buflen = nbo2 ? 0 : data.size();
        att.clear(); intr = false; intr_seen = false; leaves = 0;
        uint64_t deadline = 0;
        std::chrono::time_point<wsrep::clock> wait_until;
        switch (draw(4))
        {
        case 0: break;
        case 1: deadline = vnow() - draw(2) * 1000000000ULL; break; // already passed
        default: deadline = vnow() + draw(20) * 100000000ULL; break;
        }
        if (deadline) wait_until = std::chrono::time_point<wsrep::clock>(std::chrono::duration_cast<wsrep::clock::duration>(std::chrono::nanoseconds(deadline)));
        w.strict_time = w.nsess == 1;
        const wsrep::gtid in = nbo2 ? nbo_begin : wsrep::gtid::undefined();
        enum CS::mode m0 = cs.mode();
        int ret = nbo1 ? cs.begin_nbo_phase_one(ks, b, wait_until) : nbo2 ? cs.begin_nbo_phase_two(ks, wait_until) : cs.enter_toi_local(ks, b, wait_until);
        keys = nullptr;
        VCHECK("C04 C26 C15", !mx.mine(), "client mutex held after entering");
        check_attempts(deadline, ret, nbo1 ? wsrep::provider::flag::start_transaction : nbo2 ? wsrep::provider::flag::commit : wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit, in, nbo2);
        if (ret)
        {
            if (!nbo2) VCHECK("C15 C16", cs.mode() == m0, "%s: mode changed by failed attempt", name.c_str());
            idle("failed isolation");
            return false;
        }
        VCHECK("C15 C16", cs.in_toi(), "%s: not in isolation", name.c_str());
        VCHECK("C15 C16", cs.mode() == (nbo1 || nbo2 ? CS::m_nbo : CS::m_toi), "%s: mode %d", name.c_str(), (int)cs.mode());
        VCHECK("C15 C16", cs.toi_meta().gtid() == att.back().gtid, "%s: isolation position %lld instead of %lld", name.c_str(), cs.toi_meta().seqno().get(), att.back().gtid.seqno().get());
        VCHECK("C14", cs.last_written_gtid() == last, "last written moved before leaving");
        return true;
    }
    void Sess::toi()
    {
        label("TOI");
        if (!enter(false, false)) return;
        if (chance(1, 2)) yield();
        leave_st = chance(uint32_t(w.fail_rate), 12) ? statuses[draw(11)] : P::success;
        const wsrep::gtid g = att.back().gtid;
        int n = leaves;
        int r = cs.leave_toi_local(err());
        VCHECK("C15", leaves == n + 1, "%s: isolation left %d times", name.c_str(), leaves - n);
        VCHECK("C15 C19", (r != 0) == (leave_st != P::success), "%s: leaving returned %d for status %d", name.c_str(), r, (int)leave_st);
        last = g;
        idle("leaving isolation");
        nontrivial();
    }
    void Sess::nbo()
    {
        label("NBO");
        bool applied = chance(1, 3);
        wsrep::gtid begin;
        if (applied)
        {
            label("NBO applied");
            begin = gt(++w.seq);
            wsrep::ws_meta m(begin, wsrep::stid(wsrep::id("other"), wsrep::transaction_id::undefined(), wsrep::client_id(9)), wsrep::seqno(0), wsrep::provider::flag::start_transaction);
            VCHECK("C16", cs.enter_nbo_mode(m) == 0, "enter_nbo_mode failed");
        }
        else
        {
            if (!enter(true, false)) return;
            begin = att.back().gtid;
            leave_st = chance(uint32_t(w.fail_rate), 12) ? statuses[draw(11)] : P::success;
            int n = leaves;
            if (chance(1, 2)) yield();
            int r = cs.end_nbo_phase_one(err());
            VCHECK("C16", leaves == n + 1, "%s: phase one left %d times", name.c_str(), leaves - n);
            VCHECK("C16", (r != 0) == (leave_st != P::success), "%s: end of phase one returned %d for %d", name.c_str(), r, (int)leave_st);
            if (r) { VCHECK("C16", cs.current_error() == wsrep::e_error_during_commit && cs.current_error_status() == leave_st, "error %d after failed end of phase one", (int)cs.current_error()); }
        }
        VCHECK("C16", !cs.in_toi() && cs.mode() == CS::m_nbo, "%s: between phases: in isolation %d, mode %d", name.c_str(), (int)cs.in_toi(), (int)cs.mode());
        nbo_begin = begin;
        if (chance(1, 2)) yield();
        if (cs.current_error() != wsrep::e_success) cs.reset_error();
        if (!enter(false, true)) { label("NBO second phase failed"); nontrivial(); return; }
        for (auto& a : att) VCHECK("C16", a.in == begin, "second phase refers to %lld instead of %lld", a.in.seqno().get(), begin.seqno().get());
        leave_st = chance(uint32_t(w.fail_rate), 12) ? statuses[draw(11)] : P::success;
        int n = leaves;
        int r = cs.end_nbo_phase_two(err());
        VCHECK("C16", leaves == n + 1, "%s: phase two left %d times", name.c_str(), leaves - n);
        VCHECK("C16", (r != 0) == (leave_st != P::success), "%s: end of phase two returned %d for %d", name.c_str(), r, (int)leave_st);
        if (r) { VCHECK("C16", cs.current_error() == wsrep::e_error_during_commit && cs.current_error_status() == leave_st, "error %d after failed end of phase two", (int)cs.current_error()); }
        idle("NBO");
        nontrivial();
    }
    void Sess::rsu()
    {
        label("RSU");
        int d0 = w.desyncs, p0 = w.pauses; (void)d0; (void)p0;
        int r;
        try { r = cs.begin_rsu(5); }
        catch (const wsrep::runtime_error&) { VCHECK("C17", w.resync_fails, "begin_rsu throws"); label("resync failed"); idle("failed RSU"); return; }
        VCHECK("C17", !mx.mine() && !w.smx.mine(), "mutex held after begin_rsu");
        if (r) { label("RSU failed"); nontrivial(); idle("failed RSU"); return; }
        VCHECK("C17", w.paused && w.desynced > 0, "RSU begun without %s", w.paused ? "desync" : "pause");
        VCHECK("C17", cs.mode() == CS::m_rsu, "mode %d in RSU", (int)cs.mode());
        yield(); yield();
        VCHECK("C17", w.paused, "provider resumed during RSU");
        int f = w.resync_fails;
        r = cs.end_rsu();
        VCHECK("C17", w.nsess > 1 || (r != 0) == (w.resync_fails > f), "end_rsu returned %d", r);
        idle("RSU");
        nontrivial();
    }
    void Sess::pause()
    {
        label("pause");
        wsrep::seqno s = w.ss.pause();
        if (s.is_undefined()) return;
        VCHECK("C17", w.paused, "pause reported but not in effect");
        yield(); yield();
        VCHECK("C17", w.paused, "paused provider was resumed by somebody else");
        w.ss.resume();
        nontrivial();
    }
    void Sess::dpause()
    {
        label("desync and pause");
        wsrep::seqno s;
        int d = w.desynced;
        try { s = w.ss.desync_and_pause(); }
        catch (const wsrep::runtime_error&) { VCHECK("C17", w.resync_fails, "desync_and_pause throws"); return; }
        if (s.is_undefined()) { if (w.nsess == 1) VCHECK("C17", w.desynced == d, "desync left after failed pause"); nontrivial(); return; }
        VCHECK("C17", w.paused, "pause reported but not in effect");
        yield(); yield();
        VCHECK("C17", w.paused, "paused provider was resumed by somebody else");
        w.ss.resume_and_resync();
        if (w.nsess == 1) VCHECK("C17", w.desynced == d, "desync count %d instead of %d after resync", w.desynced, d);
        nontrivial();
    }
    void Sess::desync()
    {
        label("desync");
        if (w.ss.desync()) return;
        yield();
        try { w.ss.resync(); } catch (const wsrep::runtime_error&) { VCHECK("C17", w.resync_fails, "resync throws"); }
    }
    void Sess::causal_wait()
    {
        label("causal wait");
        wsrep::gtid before = cs.sync_wait_gtid();
        causal = std::make_pair(wsrep::gtid::undefined(), chance(1, 2) ? P::success : statuses[draw(11)]);
        if (causal.second == P::success) causal.first = gt(w.seq);
        causal_calls = -1;
        int t = int(draw(3)) - 1;
        int r = cs.sync_wait(t);
        VCHECK("C14", causal_calls == 1 && causal_timeout == t, "provider called %d times with timeout %d", causal_calls, causal_timeout);
        causal_calls = 0;
        VCHECK("C14", (r != 0) == (causal.second != P::success), "sync_wait returned %d for %d", r, (int)causal.second);
        if (!r) { VCHECK("C14", cs.sync_wait_gtid() == causal.first, "causal position %lld instead of %lld", cs.sync_wait_gtid().seqno().get(), causal.first.seqno().get()); nontrivial(); }
        else
        {
            VCHECK("C14", cs.current_error() == (causal.second == P::error_not_implemented ? wsrep::e_not_supported_error : wsrep::e_timeout_error), "error %d for status %d", (int)cs.current_error(), (int)causal.second);
            VCHECK("C14", cs.sync_wait_gtid().is_undefined() || cs.sync_wait_gtid() == before, "failed wait exposes position");
        }
    }
    void Sess::cmd()
    {
        VCHECK("C14", cs.sync_wait_gtid().is_undefined(), "causal position survives the command");
        VCHECK("*", cs.before_command() == 0, "before_command failed");
        VCHECK("*", cs.before_statement() == 0, "before_statement failed");
        VCHECK("C15 C16", cs.current_error() == wsrep::e_success, "error %d carried over", (int)cs.current_error());
        if (chance(1, 4)) { causal_wait(); if (cs.current_error() != wsrep::e_success) cs.reset_error(); }
        wsrep::gtid sw = cs.sync_wait_gtid();
        switch (prop_is("C15") ? wpick({ 6, 1, 1, 0, 0, 0, 0 }) : prop_is("C16") ? wpick({ 1, 6, 1, 0, 0, 0, 0 }) : prop_is("C17") ? wpick({ 0, 0, 3, 2, 3, 1, 1 }) : wpick({ 4, 2, 1, 0, 0, 0, 3 }))
        {
        case 0: toi(); break;
        case 1: nbo(); break;
        case 2: rsu(); break;
        case 3: pause(); break;
        case 4: dpause(); break;
        case 5: desync(); break;
        default: causal_wait(); if (!cs.current_error()) sw = cs.sync_wait_gtid(); break;
        }
        VCHECK("C14", cs.sync_wait_gtid() == sw, "causal position changed within the command");
        cs.after_statement();
        cs.after_command_before_result();
        cs.after_command_after_result();
    }
    // applier side
    void Sess::hp()
    {
        cs.open(wsrep::client_id(uint64_t(id)));
        cs.before_command();
        uint32_t n = 1 + draw(3);
        for (uint32_t i = 0; i < n; ++i)
        {
            label("applied TOI");
            wait_for("TOI order", [this] { return w.holder == nullptr; });
            w.holder = this;
            wsrep::gtid g = gt(++w.seq);
            wsrep::ws_meta m(g, wsrep::stid(wsrep::id("other"), wsrep::transaction_id::undefined(), wsrep::client_id(7)), wsrep::seqno(0), wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit | wsrep::provider::flag::isolation);
            cs.enter_toi_mode(m);
            VCHECK("C15", cs.mode() == CS::m_toi && cs.in_toi() && cs.toi_meta().gtid() == g, "applier not in isolation");
            yield();
            cs.leave_toi_mode();
            VCHECK("C15", cs.mode() == CS::m_high_priority && !cs.in_toi() && cs.toi_meta().gtid().is_undefined(), "applier still in isolation");
            VCHECK("C14", cs.last_written_gtid() == g, "last written %lld instead of %lld", cs.last_written_gtid().seqno().get(), g.seqno().get());
            w.holder = nullptr;
            yield();
        }
        cs.after_command_before_result();
        cs.after_command_after_result();
        cs.close();
        cs.cleanup();
    }
    void Sess::run()
    {
        if (cs.mode() != CS::m_local) { hp(); return; }
        cs.open(wsrep::client_id(uint64_t(id)));
        VCHECK("C14", cs.last_written_gtid().is_undefined() && cs.sync_wait_gtid().is_undefined(), "positions not reset at open");
        uint32_t n = 1 + range(0, 4);
        for (uint32_t i = 0; i < n; ++i)
        {
            cmd();
            if (chance(1, 10))
            {
                cs.close(); cs.cleanup(); cs.open(wsrep::client_id(uint64_t(id)));
                last = wsrep::gtid::undefined();
                VCHECK("C14", cs.last_written_gtid().is_undefined(), "last written position survives the session");
            }
        }
        cs.close();
        cs.cleanup();
    }
    void engine_iso()
    {
        World w;
        w.ss.set_provider_factory([&w](wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
                                  { return std::unique_ptr<wsrep::provider>(w.prov = new Prov(s, w)); });
        w.ss.load_provider("scripted", "");
        w.nsess = 1 + int(range(0, 3));
        w.fail_rate = int(draw(4)) * 2;
        w.no_resync_fail = !chance(1, 4);
        set_switch_rate(1 + draw(4));
        set_spurious(chance(1, 4));
        for (int i = 0; i < w.nsess; ++i) w.s.emplace_back(new Sess(w, i + 1, i && chance(1, 6) ? CS::m_high_priority : CS::m_local));
        for (auto& s : w.s) { Sess* p = s.get(); spawn(p->name, [p] { if (p->cs.mode() != CS::m_local) p->cs.acquire_ownership(); p->run(); }); }
        run();
        VCHECK("C17", w.desynced == 0, "%d desync requests were not undone", w.desynced);
        VCHECK("C17", !w.paused && w.pauses == w.resumes, "provider is left paused");
        VCHECK("C15 C16", !w.holder, "isolation is left held");
        // with everything undone a fresh request gets its turn
        w.fail_rate = 0;
        bool ok = false;
        spawn("probe", [&w, &ok] {
            wsrep::seqno s(w.ss.desync_and_pause());
            VCHECK("C17", !s.is_undefined() && w.paused && w.desynced == 1, "fresh pause request failed");
            w.ss.resume_and_resync();
            VCHECK("C17", !w.paused && w.desynced == 0, "fresh pause request was not undone");
            ok = true; });
        run();
        VCHECK("C17", ok, "fresh pause request did not finish");
    }
    // resume that fails: the session's mode is restored and the failure reported
    void engine_iso_resume()
    {
        World w;
        w.ss.set_provider_factory([&w](wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
                                  { return std::unique_ptr<wsrep::provider>(w.prov = new Prov(s, w)); });
        w.ss.load_provider("scripted", "");
        w.s.emplace_back(new Sess(w, 1, CS::m_local));
        Sess* p = w.s[0].get();
        spawn("s", [p, &w] {

            p->cs.open(wsrep::client_id(1));
            p->cs.before_command(); p->cs.before_statement();
            if (chance(1, 2))
            {
                VCHECK("C17", p->cs.begin_rsu(5) == 0, "RSU failed");
                w.resume_broken = true;
                VCHECK("C17", p->cs.end_rsu() != 0, "failed resume is not reported");
                VCHECK("C17", p->cs.mode() == CS::m_local, "mode %d after RSU", (int)p->cs.mode());
            }
            else
            {
                w.ss.desync_and_pause();
                w.resume_broken = true;
                w.ss.resume_and_resync(); // must not throw
            }
            p->cs.after_statement(); p->cs.after_command_before_result(); p->cs.after_command_after_result();
            p->cs.close(); p->cs.cleanup();
        });
        run();
    }
    void engine()
    {
        if (prop_is("C17") && chance(1, 20)) { nontrivial(); label("resume failed"); engine_iso_resume(); }
        else engine_iso();
    }
    Registrar r_iso("iso", engine, "an isolation, non blocking, upgrade or pause request ran to its end, or was retried at least twice");
}
