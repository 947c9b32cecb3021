// Engine "apply" (C18, C19, C23, C24, C15, C16): applier threads deliver a totally ordered
// stream of write sets of every kind, views and disconnects to the real server state. The
// appliers' service is a small transactional store; every callback may fail. Oracle: a
// reference of what each write set must leave behind (committed data, stored fragments,
// open streaming appliers, its position consumed once, error data, result).
#include "svc.hpp"
#include <algorithm>
using namespace vf;
namespace
{
    typedef wsrep::provider P;
    typedef wsrep::provider::flag F;
    typedef enum wsrep::provider::status PS;
    typedef wsrep::transaction T;
    typedef std::pair<int, uint64_t> Key; // origin, transaction
    const wsrep::id gid("group");
    const wsrep::id origins[4] = { wsrep::id("o0"), wsrep::id("o1"), wsrep::id("o2"), wsrep::id("o3") };
    int oidx(const wsrep::id& i) { for (int k = 0; k < 4; ++k) if (origins[k] == i) return k; return -1; }
    Key mk(const wsrep::id& s, wsrep::transaction_id t) { return Key(oidx(s), t.get()); }
    wsrep::xid mkxid(const Key& k) { return wsrep::xid(1, 3, 1, strf("%d%c%02d", k.first, 'x', int(k.second % 100)).substr(0, 4).c_str()); }

    enum Kind { k_one, k_first, k_frag, k_prepare, k_commit, k_rollback, k_sr, k_toi, k_nbo_begin, k_nbo_end, k_replay, k_view };
    struct Frag { long long seqno; int flags; std::string data; wsrep::xid xid;
        bool operator==(const Frag& o) const { return seqno == o.seqno && flags == o.flags && data == o.data && xid == o.xid; } };
    struct Exp { bool sa = false, prepared = false; std::vector<std::string> applied; };
    struct Committed { Key k; std::string data; long long seqno; };
    struct AHps;
    struct W
    {
        Kind kind; Key key; long long seqno = 0; int flags = 0; std::string data;
        wsrep::view view; bool partitioned = false;
        int applier = -1; bool done = false, entered = false, left = false, barrier = false;
        std::string left_err; int vote = 0;
        // failures injected while it was delivered
        bool apply_failed = false; std::string err; int apply_err = 0; bool step_failed = false, adopt_failed = false; std::string why;
        int toi_calls = 0, nbo_calls = 0; bool op_in_order = false;
    };
    struct World;
    struct Prov : public FakeProvider
    {
        World& w;
        Prov(wsrep::server_state& s, World& ww) : FakeProvider(s), w(ww) { }
        S commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
    };
    struct Service : public NullServerService
    {
        World* w = nullptr;
        wsrep::storage_service* storage_service(wsrep::client_service&) override;
        void release_storage_service(wsrep::storage_service*) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override;
        void release_high_priority_service(wsrep::high_priority_service*) override;
        void recover_streaming_appliers(wsrep::high_priority_service&) override;
        void recover_streaming_appliers(wsrep::client_service&) override;
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override;
        void bootstrap() override;
    };
    struct CService : public NullClientService { AHps* h = nullptr; };
    struct AHps : public wsrep::high_priority_service
    {
        World& w; Mutex mx; Cond cv; CService svc; TestClientState hc; bool sa, rep, dead = false, active = false; int id;
        std::vector<std::string> ch; std::vector<Key> removals; int nfrags = 0; std::string adopted_err;
        AHps(World& ww, bool s, bool r);
        ~AHps() override { }
        std::string nm() const { return strf("%s%d", sa ? "sa" : rep ? "replayer" : "applier", id); }
        void ck(const char* what, bool ctx = true);
        bool inject(const char* what);
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int next_fragment(const wsrep::ws_meta&) override;
        const wsrep::transaction& transaction() const override { return hc.transaction(); }
        int adopt_transaction(const wsrep::transaction&) override;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&, const wsrep::xid&) override;
        int remove_fragments(const wsrep::ws_meta&) override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&, bool nbo);
        int apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override { return toi(m, b, e, false); }
        int apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override { return toi(m, b, e, true); }
        void after_apply() override { ck("after_apply", false); hc.after_applying(); active = hc.transaction().active(); if (!active) { ch.clear(); removals.clear(); } }
        void store_globals() override;
        void reset_globals() override;
        void switch_execution_context(wsrep::high_priority_service&) override { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) override;
        void adopt_apply_error(wsrep::mutable_buffer& e) override { adopted_err.assign(e.data(), e.size()); hc.adopt_apply_error(e); }
        bool is_replaying() const override { return rep; }
        void debug_crash(const char*) override { yield(); }
        int fail_apply(W* x, wsrep::mutable_buffer& e);
        void open(); void shutdown();
    };
    struct Stor : public wsrep::storage_service
    {
        World& w; Key k; bool adopted = false, rm = false;
        explicit Stor(World& ww) : w(ww) { }
        int start_transaction(const wsrep::ws_handle&) override { return 0; }
        void adopt_transaction(const wsrep::transaction& t) override { adopted = true; k = mk(t.server_id(), t.id()); }
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int, const wsrep::const_buffer&, const wsrep::xid&) override { return 0; }
        int update_fragment_meta(const wsrep::ws_meta&) override { return 0; }
        int remove_fragments() override { VCHECK("C18 C11", adopted, "fragments removed without transaction"); rm = true; return 0; }
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return 0; }
        void store_globals() override { }
        void reset_globals() override { }
        bool requires_globals() const override { return false; }
    };
    struct World
    {
        Mutex smx{"server"}; Cond scv{"server"}; Service svc; TestServerState ss; Prov* prov = nullptr;
        int rate = 0, arate = 0, vrate = 0; bool thread_fail = false;
        std::vector<std::unique_ptr<W>> ws; long long seq = 0, left = 0; size_t todo = 0, taken = 0, finished = 0;
        std::map<int, AHps*> ctx;            // fibre -> current context
        std::map<int, W*> cur;               // fibre -> write set being delivered
        std::vector<Committed> db; std::map<Key, std::vector<Frag>> store;
        std::vector<Committed> edb; std::map<Key, std::vector<Frag>> estore; std::map<Key, Exp> exp;
        std::vector<AHps*> sas; int nsa = 0, nhps = 0, storages = 0;
        // generator
        struct G { Key k; int n; bool xa, prepared; };
        std::vector<G> gopen; uint64_t next_tid = 1; std::vector<int> members{0, 1, 2, 3}; bool prim = true;
        long long vseq = 0; bool connected = false;
        // views
        int recovers = 0, recovers_total = 0, logged = 0, bootstraps = 0; bool in_view = false; wsrep::view last_prim; bool have_last_prim = false;
        std::set<Key> expect_closed, adopt_failed; bool recovering = false; std::vector<Key> removed_in_view;
        World() : ss(smx, scv, svc, "o0") { svc.w = this; }
        W* me() { auto i = cur.find(current_id()); return i == cur.end() ? nullptr : i->second; }
        AHps* sa_of(const Key& k) { return static_cast<AHps*>(ss.find_streaming_applier(origins[k.first], wsrep::transaction_id(k.second))); }
        void generate(); bool next(W*& x); void deliver(AHps& h, W& x); void view(AHps& h, W& x); void check(W& x, int ret, AHps& h, const std::vector<Frag>& pre_store, const Exp& pre);
        void applier(int n); void check_sas(const char* when); void check_view_close();
        wsrep::view mkview(bool prim, const std::vector<int>& m, bool final);
    };

    // ---- provider ------------------------------------------------------
    PS Prov::commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        W* x = w.me();
        VCHECK("C18 C19 C26", !w.smx.mine(), "server mutex held in commit_order_enter");
        VCHECK("C18 C19 C01", x, "commit order entered outside of applying");
        VCHECK("C18 C19 C01", m.seqno().get() == x->seqno, "position %lld ordered while %lld is applied", m.seqno().get(), x->seqno);
        VCHECK("C18 C19 C01", !x->entered, "position %lld ordered twice", x->seqno);
        VCHECK("C18 C19 C12", h.opaque() == x, "position %lld ordered with another write set's handle", x->seqno);
        x->entered = true;
        World* pw = &w;
        wait_for("commit order", [pw, x] { return pw->left == x->seqno - 1; });
        return success;
    }
    int Prov::commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e)
    {
        W* x = w.me();
        VCHECK("C18 C19 C01", x && m.seqno().get() == x->seqno && x->entered && !x->left && h.opaque() == x, "commit order left for %lld out of turn", m.seqno().get());
        x->left = true;
        x->left_err.assign(e.data() ? e.data() : "", e.size());
        w.left = x->seqno;
        if (x->kind != k_nbo_end) x->vote = chance(uint32_t(e.size() ? std::max(w.vrate, 3) : w.vrate), 12) ? 1 + int(draw(3)) : 0;
        trace("    leave %lld err '%s' vote %d", x->seqno, x->left_err.c_str(), x->vote);
        yield();
        return x->vote;
    }

    // ---- applier service ----------------------------------------------
    AHps::AHps(World& ww, bool s, bool r)
        : wsrep::high_priority_service(ww.ss), w(ww), mx("hps"), cv("hps"),
          hc(mx, cv, ww.ss, svc, uint64_t(100 + ww.nhps), wsrep::client_state::m_high_priority), sa(s), rep(r), id(ww.nhps++) { svc.h = this; }
    void AHps::open()
    {
        hc.open(wsrep::client_id(uint64_t(100 + id)));
        hc.before_command();
    }
    void AHps::shutdown()
    {
        VCHECK("C18 C08 C23 C24", !dead, "%s released twice", nm().c_str());
        VCHECK("C18 C19 C23 C24", !hc.transaction().active() && !active, "%s released with open transaction", nm().c_str());
        dead = true;
        hc.acquire_ownership();
        hc.after_command_before_result();
        hc.after_command_after_result();
        hc.close();
        hc.cleanup();
    }
    void AHps::ck(const char* what, bool ctx)
    {
        VCHECK("C18 C08", !dead, "%s called on released %s", what, nm().c_str());
        if (ctx) VCHECK("C18 C08", w.ctx[current_id()] == this, "%s of %s called outside of its execution context", what, nm().c_str());
        trace("    %s %s", nm().c_str(), what);
    }
    bool AHps::inject(const char* what)
    {
        W* x = w.me();
        if (!x || x->kind == k_view || x->step_failed || x->vote || !chance(uint32_t(w.rate), 60)) return false; // one failure at a time
        trace("      injected failure");
        x->step_failed = true; x->why = x->why + " " + what;
        label("a step other than applying failed");
        return true;
    }
    void AHps::store_globals()
    {
        VCHECK("C18 C08", !dead, "store_globals on released %s", nm().c_str());
        VCHECK("C18 C08", w.ctx[current_id()] == nullptr || w.ctx[current_id()] == this || w.ctx[current_id()]->dead, "%s stores its context over the one of %s", nm().c_str(), w.ctx[current_id()]->nm().c_str());
        w.ctx[current_id()] = this;
        hc.acquire_ownership();
    }
    void AHps::reset_globals()
    {
        VCHECK("C18 C08", !dead && w.ctx[current_id()] == this, "%s resets a context which is not its own", nm().c_str());
        w.ctx[current_id()] = nullptr;
    }
    int AHps::start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        ck("start_transaction", !sa);
        VCHECK("C18 C19", !active, "%s starts a transaction while one is open", nm().c_str());
        if (W* x = w.me()) if (x->kind != k_view) VCHECK("C18", m.seqno().get() == x->seqno && h.opaque() == x, "transaction started for another write set");
        if (inject("start_transaction")) return 1;
        active = true; ch.clear(); removals.clear();
        hc.acquire_ownership();
        return hc.start_transaction(h, m);
    }
    int AHps::next_fragment(const wsrep::ws_meta& m)
    {
        ck("next_fragment", false);
        VCHECK("C18", active && sa, "next fragment without transaction");
        VCHECK("C18", w.me() && m.seqno().get() == w.me()->seqno, "next fragment with another position");
        if (inject("next_fragment")) return 1;
        return hc.next_fragment(m);
    }
    int AHps::adopt_transaction(const wsrep::transaction& t)
    {
        ck("adopt_transaction");
        VCHECK("C18 C19 C23", !active, "%s adopts while in transaction", nm().c_str());
        if (chance(uint32_t(w.arate), 8))
        {
            label("adopting failed");
            w.adopt_failed.insert(mk(t.server_id(), t.id()));
            if (W* x = w.me()) x->adopt_failed = true;
            return 1;
        }
        active = true; ch.clear(); removals.clear();
        hc.adopt_transaction(t);
        return 0;
    }
    int AHps::fail_apply(W* x, wsrep::mutable_buffer& e)
    {
        if (!x || !chance(uint32_t(w.rate), 10)) return 0;
        x->apply_failed = true;
        x->apply_err = 10 + int(draw(5));
        if (chance(3, 4)) { x->err = strf("err%lld", x->seqno); e.push_back(x->err); }
        label(x->err.empty() ? "apply failed without error data" : "apply failed with error data");
        trace("      apply fails");
        return x->apply_err;
    }
    int AHps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e)
    {
        ck("apply_write_set");
        VCHECK("C18", active, "%s applies without a transaction", nm().c_str());
        VCHECK("C19", e.size() == 0, "error data of an earlier failure is passed in");
        W* x = w.me();
        std::string d(b.data() ? b.data() : "", b.size());
        if (x && !w.recovering)
        {
            VCHECK("C18", d == x->data && m.seqno().get() == x->seqno && m.flags() == x->flags, "another write set is applied");
            VCHECK("C18", mk(m.server_id(), m.transaction_id()) == mk(hc.transaction().server_id(), hc.transaction().id()), "write set applied in another transaction");
        }
        bool early = chance(1, 3);
        if (early) ch.push_back(d); // part of the changes were made
        yield();
        if (!w.recovering) if (int r = fail_apply(x, e)) return r;
        if (!early) ch.push_back(d);
        if (!(m.flags() & F::commit)) hc.fragment_applied(m.seqno());
        if (m.flags() & F::prepare)
        {
            hc.assign_xid(mkxid(mk(m.server_id(), m.transaction_id())));
            int r = hc.before_prepare() || hc.after_prepare();
            VCHECK("C18 C11", !r && hc.transaction().state() == T::s_prepared, "applied XA prepare failed");
        }
        return 0;
    }
    int AHps::append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::const_buffer& b, const wsrep::xid& x)
    {
        ck("append_fragment_and_commit");
        VCHECK("C18 C08", !active && !sa, "fragment stored inside of a transaction");
        if (inject("append_fragment_and_commit")) return 1;
        hc.start_transaction(h, m);
        active = true;
        hc.prepare_for_ordering(h, m, true);
        int e = hc.before_commit();
        VCHECK("C18", !e, "fragment could not be committed");
        Frag f; f.seqno = m.seqno().get(); f.flags = m.flags(); f.data.assign(b.data() ? b.data() : "", b.size()); f.xid = x;
        w.store[mk(m.server_id(), m.transaction_id())].push_back(f);
        return hc.ordered_commit() || hc.after_commit();
    }
    int AHps::remove_fragments(const wsrep::ws_meta& m)
    {
        ck("remove_fragments");
        VCHECK("C18 C19 C23", active, "fragments removed outside of a transaction");
        Key k = mk(m.server_id(), m.transaction_id());
        VCHECK("C18 C19 C23", k == mk(hc.transaction().server_id(), hc.transaction().id()), "fragments of another transaction removed");
        if (inject("remove_fragments")) return 1;
        removals.push_back(k);
        yield();
        return 0;
    }
    int AHps::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        ck("commit");
        VCHECK("C18 C19 C23", active, "commit without transaction");
        if (inject("commit")) return 1;
        hc.prepare_for_ordering(h, m, true);
        if (m.seqno().is_undefined())
        {
            VCHECK("C18 C23", ch.empty(), "changes committed out of order");
            VCHECK("C18 C23", w.in_view, "out of order commit while applying");
            for (auto& k : removals) { w.store.erase(k); w.removed_in_view.push_back(k); }
            removals.clear();
            hc.before_rollback(); hc.after_rollback();
            return 0;
        }
        int e = hc.before_commit();
        VCHECK("C18 C19", !e, "ordered commit of %lld was refused", m.seqno().get());
        yield();
        std::string all;
        for (auto& d : ch) all += d + ";";
        if (!ch.empty()) w.db.push_back(Committed{ mk(hc.transaction().server_id(), hc.transaction().id()), all, m.seqno().get() });
        for (auto& k : removals) w.store.erase(k);
        ch.clear(); removals.clear();
        return hc.ordered_commit() || hc.after_commit();
    }
    int AHps::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        ck("rollback");
        VCHECK("C18 C19 C23 C24", active, "%s: rollback without transaction", nm().c_str());
        if (inject("rollback")) return 1;
        hc.prepare_for_ordering(h, m, false);
        hc.before_rollback();
        if (!w.smx.mine()) yield();
        ch.clear(); removals.clear();
        hc.after_rollback();
        return 0;
    }
    int AHps::toi(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e, bool nbo)
    {
        ck(nbo ? "apply_nbo_begin" : "apply_toi");
        W* x = w.me();
        VCHECK("C18 C15 C16", !active && x && m.seqno().get() == x->seqno && std::string(b.data() ? b.data() : "", b.size()) == x->data, "another operation is applied");
        ++(nbo ? x->nbo_calls : x->toi_calls);
        x->op_in_order = x->entered && !x->left;
        yield();
        return fail_apply(x, e);
    }
    int AHps::log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m, wsrep::mutable_buffer& e)
    {
        ck("log_dummy_write_set");
        VCHECK("C18 C19", !active, "%s: empty event logged inside of a transaction", nm().c_str());
        label("empty event logged");
        if (inject("log_dummy_write_set")) return 1;
        hc.start_transaction(h, m);
        hc.prepare_for_ordering(h, m, false);
        int r = w.prov->commit_order_enter(h, m) || 0;
        r = r || w.prov->commit_order_leave(h, m, e);
        hc.before_rollback(); hc.after_rollback(); hc.after_applying();
        return r;
    }

    // ---- server service --------------------------------------------------
    int Stor::commit(const wsrep::ws_handle&, const wsrep::ws_meta&)
    {
        if (rm) w.store.erase(k);
        return 0;
    }
    wsrep::storage_service* Service::storage_service(wsrep::client_service&) { ++w->storages; return new Stor(*w); }
    void Service::release_storage_service(wsrep::storage_service* s) { --w->storages; delete s; }
    wsrep::high_priority_service* Service::streaming_applier_service(wsrep::high_priority_service& o)
    {
        AHps* h = new AHps(*w, true, false);
        h->open();
        w->sas.push_back(h);
        ++w->nsa;
        (void)o;
        return h;
    }
    void Service::release_high_priority_service(wsrep::high_priority_service* s)
    {
        AHps* h = static_cast<AHps*>(s);
        VCHECK("C18 C19 C23 C24", h && h->sa, "not a streaming applier released");
        auto it = std::find(w->sas.begin(), w->sas.end(), h);
        VCHECK("C18 C19 C23 C24", it != w->sas.end(), "streaming applier released twice");
        // leaves the thread without context, as a DBMS deleting the session does
        w->ctx[current_id()] = nullptr;
        w->sas.erase(it);
        h->shutdown();
        --w->nsa;
        delete h;
    }
    void Service::recover_streaming_appliers(wsrep::client_service&) { fail("C24", "recovery through a client"); }
    void Service::recover_streaming_appliers(wsrep::high_priority_service& o)
    {
        ++w->recovers; ++w->recovers_total;
        trace("  recover");
        VCHECK("C24", w->nsa == 0, "recovery with streaming appliers in place");
        VCHECK("C24 C23", w->logged == 0, "view recorded before streaming transactions were recovered");
        w->recovering = true;
        AHps& h = static_cast<AHps&>(o);
        for (auto& s : w->store)
        {
            label("streaming transaction recovered");
            wsrep::id sid(origins[s.first.first]);
            wsrep::transaction_id tid(s.first.second);
            AHps* a = static_cast<AHps*>(streaming_applier_service(o));
            w->ss.start_streaming_applier(sid, tid, a);
            for (size_t i = 0; i < s.second.size(); ++i)
            {
                const Frag& f = s.second[i];
                wsrep::ws_meta m(wsrep::gtid(gid, wsrep::seqno(f.seqno)), wsrep::stid(sid, tid, wsrep::client_id(1)), wsrep::seqno(f.seqno - 1), f.flags);
                wsrep::mutable_buffer e;
                wsrep::high_priority_switch sw(h, *a);
                if (i == 0) a->start_transaction(wsrep::ws_handle(tid, w->me()), m); else a->hc.next_fragment(m);
                a->apply_write_set(m, wsrep::const_buffer(f.data.data(), f.data.size()), e);
                a->after_apply();
            }
        }
        w->recovering = false;
    }
    void Service::bootstrap() { ++w->bootstraps; }
    void Service::log_view(wsrep::high_priority_service* h, const wsrep::view& v)
    {
        VCHECK("C23", w->in_view && h, "view recorded outside of its delivery");
        W* x = w->me();
        VCHECK("C23", v.state_id() == x->view.state_id() && v.status() == x->view.status() && v.members().size() == x->view.members().size(), "another view is recorded");
        ++w->logged;
        w->check_view_close();
    }

    // ---- generator ---------------------------------------------------------
    wsrep::view World::mkview(bool prim, const std::vector<int>& m, bool final)
    {
        std::vector<wsrep::view::member> mem;
        int own = -1;
        for (int i : m) { if (i == 0) own = int(mem.size()); mem.push_back(wsrep::view::member(origins[i], strf("n%d", i), "")); }
        if (final) { mem.clear(); own = -1; }
        return wsrep::view(wsrep::gtid(gid, wsrep::seqno(prim || !final ? seq : -1)), wsrep::seqno(prim ? ++vseq : wsrep::seqno::undefined().get()),
                           final ? (chance(1, 2) ? wsrep::view::disconnected : wsrep::view::non_primary) : prim ? wsrep::view::primary : wsrep::view::non_primary,
                           0, own, 1, mem);
    }
    void World::generate()
    {
        std::unique_ptr<W> x(new W);
        auto add_view = [&](bool p, const std::vector<int>& m, bool final) {
            std::unique_ptr<W> v(new W);
            v->kind = k_view; v->barrier = true; v->view = mkview(p, m, final); v->seqno = -1;
            ws.push_back(std::move(v)); };
        int r = int(wpick({ 12, 10, prop_is("C23 C24") ? 6u : 2u, 2 }));
        if (r == 2)
        {
            label("membership change");
            int k = int(wpick({ 4, 3, 2 }));
            if (k == 0)
            {   // some member leaves or joins
                std::vector<int> m{0};
                for (int i = 1; i < 4; ++i) if (chance(1, 2)) m.push_back(i);
                if (chance(1, 3)) std::reverse(m.begin(), m.end());
                if (chance(1, 3)) add_view(false, std::vector<int>{0}, false);
                members = m;
                add_view(true, m, false);
            }
            else if (k == 1)
            {   // partition and merge, perhaps with the same members
                add_view(false, std::vector<int>{0}, false);
                if (chance(1, 3)) { std::vector<int> m(members); std::reverse(m.begin(), m.end()); members = m; }
                else if (chance(1, 4)) { members.assign(1, 0); }
                add_view(true, members, false);
            }
            else
            {   // disconnect and reconnect
                if (chance(1, 2)) add_view(false, std::vector<int>{0}, false);
                add_view(false, std::vector<int>{}, true);
                if (chance(1, 2)) { members.assign(1, 0); for (int i = 1; i < 4; ++i) if (chance(2, 3)) members.push_back(i); }
                add_view(true, members, false);
            }
            return;
        }
        x->seqno = ++seq;
        x->data = strf("d%lld", x->seqno);
        if (chance(1, 12)) x->data.clear();
        if (r == 3)
        {
            int k = int(draw(3));
            x->kind = k == 0 ? k_toi : k == 1 ? k_nbo_begin : k_nbo_end;
            x->flags = F::isolation | (k != 2 ? F::start_transaction : 0) | (k != 1 ? F::commit : 0);
            x->key = Key(int(draw(4)), wsrep::transaction_id::undefined().get());
            x->barrier = true;
        }
        else if (r == 0 || gopen.empty())
        {
            int k = int(wpick({ 6, 8, 2, 2, 1 }));
            x->key = Key(pick(members), next_tid++);
            // identifiers of different origins may coincide
            if (k == 1 && !gopen.empty() && chance(1, 2))
            {
                Key c(pick(members), pick(gopen).k.second);
                bool used = false;
                for (auto& y : ws) if (y->kind != k_view && y->key == c) used = true;
                if (!used) x->key = c;
            }
            if (k == 0) { x->kind = k_one; x->flags = F::start_transaction | F::commit; }
            else if (k == 1)
            {
                x->kind = k_first; x->flags = F::start_transaction;
                G g; g.k = x->key; g.n = 1; g.xa = chance(1, 3); g.prepared = false;
                if (g.xa && chance(1, 5)) { g.prepared = true; x->flags |= F::prepare; }
                gopen.push_back(g);
            }
            else if (k == 2)
            {   // nothing is known about the transaction
                label("write set of an unknown transaction");
                int j = int(draw(4));
                x->kind = j == 0 ? k_frag : j == 1 ? k_commit : j == 2 ? k_rollback : k_prepare;
                x->flags = j == 0 ? 0 : j == 1 ? F::commit : j == 2 ? F::rollback : F::prepare;
            }
            else if (k == 3) { x->kind = k_sr; x->flags = F::start_transaction | F::rollback; }
            else { x->kind = k_replay; x->flags = F::commit | (chance(1, 2) ? F::start_transaction : 0); x->key.first = 0; label("replaying applier"); }
        }
        else
        {
            size_t i = draw(uint32_t(gopen.size()));
            G& g = gopen[i];
            x->key = g.k;
            int k = g.prepared ? 1 + int(draw(2)) : g.xa ? int(wpick({ 4, 0, 2, 4 })) : int(wpick({ 5, 4, 2 }));
            if (k == 0) { x->kind = k_frag; x->flags = 0; ++g.n; }
            else if (k == 1) { x->kind = k_commit; x->flags = F::commit; gopen.erase(gopen.begin() + long(i)); }
            else if (k == 2) { x->kind = k_rollback; x->flags = F::rollback; gopen.erase(gopen.begin() + long(i)); }
            else { x->kind = k_prepare; x->flags = F::prepare; g.prepared = true; ++g.n; }
        }
        if (x->kind != k_toi && x->kind != k_nbo_begin && x->kind != k_nbo_end)
        {
            if (chance(1, 4)) x->flags |= F::pa_unsafe;
            if (chance(1, 8)) x->flags |= F::implicit_deps;
            if (chance(1, 8)) x->flags |= F::snapshot;
        }
        ws.push_back(std::move(x));
    }

    // ---- delivery ---------------------------------------------------------
    void World::check_sas(const char* when)
    {
        int open = 0;
        for (auto& e : exp)
        {
            AHps* a = sa_of(e.first);
            VCHECK("C18 C19 C23 C24", (a != nullptr) == e.second.sa, "%s: transaction %d:%llu has %s streaming applier", when, e.first.first, (unsigned long long)e.first.second, a ? "a" : "no");
            if (a)
            {
                ++open;
                VCHECK("C18", mk(a->transaction().server_id(), a->transaction().id()) == e.first, "%s: streaming applier of another transaction", when);
                VCHECK("C18 C19 C24", a->ch == e.second.applied, "%s: streaming applier %d:%llu holds other changes", when, e.first.first, (unsigned long long)e.first.second);
                VCHECK("C18 C11 C24", (a->transaction().state() == T::s_prepared) == e.second.prepared, "%s: streaming applier prepared %d", when, (int)a->transaction().state());
            }
        }
        VCHECK("C18 C19 C23 C24", open == nsa, "%s: %d streaming appliers exist, %d expected", when, nsa, open);
    }
    void World::check(W& x, int ret, AHps& h, const std::vector<Frag>& pre, const Exp& pe)
    {
        Exp& e = exp[x.key];
        const char* who = x.why.c_str();
        VCHECK("C18 C08", ctx[current_id()] == &h, "thread context after applying %lld is not the applier's", x.seqno);
        if (x.step_failed)
        {
            VCHECK("C19", ret != 0, "%lld: failure of%s is reported as success", x.seqno, who);
            end_case();
        }
        VCHECK("C18 C19", x.left, "position %lld was not consumed", x.seqno);
        if (x.apply_failed)
        {
            VCHECK("C19", x.left_err == x.err, "%lld: provider was given error data '%s' instead of '%s'", x.seqno, x.left_err.c_str(), x.err.c_str());
            int want = x.err.empty() ? (x.vote ? x.vote : x.apply_err) : x.vote;
            VCHECK("C19", (ret != 0) == (want != 0), "%lld: apply failed, vote %d, error data '%s': result %d", x.seqno, x.vote, x.err.c_str(), ret);
        }
        else
        {
            VCHECK("C19 C18", x.left_err.empty(), "%lld: error data '%s' although applying succeeded", x.seqno, x.left_err.c_str());
            VCHECK("C19", (ret != 0) == (x.vote != 0), "%lld: ordering result %d became %d", x.seqno, x.vote, ret);
        }
        VCHECK("C15 C18", x.toi_calls == (x.kind == k_toi), "operation applied %d times", x.toi_calls);
        VCHECK("C16 C18", x.nbo_calls == (x.kind == k_nbo_begin), "operation started %d times", x.nbo_calls);
        if (x.kind == k_toi || x.kind == k_nbo_begin) VCHECK("C15 C16 C18", x.op_in_order, "%lld: operation not applied in total order", x.seqno);
        if (x.vote) { label("voted out"); end_case(); } // the applier stops here
        // what must be there now
        std::vector<Frag> st(pre);
        std::string committed;
        Frag f; f.seqno = x.seqno; f.flags = x.flags; f.data = x.data;
        switch (x.kind)
        {
        case k_one: case k_replay:
            if (!x.apply_failed) committed = x.data + ";";
            break;
        case k_first:
            if (!x.apply_failed) { e.sa = true; e.prepared = x.flags & F::prepare; e.applied.assign(1, x.data); f.xid = e.prepared ? mkxid(x.key) : wsrep::xid(); st.push_back(f); }
            break;
        case k_frag: case k_prepare:
            if (!pe.sa) break;
            if (x.apply_failed) { e = Exp(); st.clear(); break; }
            e.prepared = x.kind == k_prepare;
            e.applied.push_back(x.data);
            f.xid = e.prepared ? mkxid(x.key) : wsrep::xid();
            st.push_back(f);
            break;
        case k_commit:
            if (!pe.sa) break;
            if (!x.apply_failed) { for (auto& d : pe.applied) committed += d + ";"; committed += x.data + ";"; }
            e = Exp();
            st.clear();
            break;
        case k_rollback:
            if (!pe.sa) break;
            e = Exp();
            if (x.adopt_failed) label("stale fragments left"); else st.clear();
            break;
        default: break;
        }
        if (ret) end_case();
        if (st.empty()) estore.erase(x.key); else estore[x.key] = st;
        if (!committed.empty()) edb.push_back(Committed{ x.key, committed, x.seqno });
        AHps* a = sa_of(x.key);
        VCHECK("C18 C19", (a != nullptr) == e.sa, "%lld: transaction %d:%llu has %s streaming applier", x.seqno, x.key.first, (unsigned long long)x.key.second, a ? "a" : "no");
        if (a) VCHECK("C18 C19", a->ch == e.applied && mk(a->transaction().server_id(), a->transaction().id()) == x.key && (a->transaction().state() == T::s_prepared) == e.prepared,
                      "%lld: streaming applier does not hold exactly the changes of its transaction", x.seqno);
        VCHECK("C18 C19", !h.hc.transaction().active() && !h.active, "%lld: applier left with open transaction", x.seqno);
        const std::vector<Frag> got = store.count(x.key) ? store[x.key] : std::vector<Frag>();
        VCHECK("C18 C19", got == st, "%lld: %zu fragments stored for %d:%llu, %zu expected", x.seqno, got.size(), x.key.first, (unsigned long long)x.key.second, st.size());
        int n = 0;
        for (auto& c : db) if (c.seqno == x.seqno)
        {
            ++n;
            VCHECK("C18 C19", c.data == committed && c.k == x.key, "%lld: committed '%s' instead of '%s'", x.seqno, c.data.c_str(), committed.c_str());
        }
        VCHECK("C18 C19", n == !committed.empty(), "%lld: %d commits, %d expected", x.seqno, n, (int)!committed.empty());
    }
    void World::deliver(AHps& h, W& x)
    {
        const wsrep::ws_meta m(wsrep::gtid(gid, wsrep::seqno(x.seqno)), wsrep::stid(origins[x.key.first], wsrep::transaction_id(x.key.second), wsrep::client_id(1)),
                               wsrep::seqno(x.seqno - 1), x.flags);
        const std::vector<Frag> pre = estore.count(x.key) ? estore[x.key] : std::vector<Frag>();
        const Exp pe = exp[x.key];
        trace("%s: apply %lld kind %d flags %d of %d:%llu%s", h.nm().c_str(), x.seqno, (int)x.kind, x.flags, x.key.first, (unsigned long long)x.key.second, pe.sa ? " (open)" : "");
        if (pe.sa) nontrivial();
        mix(uint64_t(x.kind) * 4 + pe.sa * 2);
        if (x.kind == k_replay)
        {
            std::unique_ptr<AHps> rp(new AHps(*this, false, true));
            rp->open();
            h.reset_globals();
            rp->store_globals();
            int ret = ss.on_apply(*rp, wsrep::ws_handle(wsrep::transaction_id(x.key.second), &x), m, wsrep::const_buffer(x.data.data(), x.data.size()));
            VCHECK("C18 C10", ss.find_streaming_applier(m.server_id(), m.transaction_id()) == nullptr, "replaying created a streaming applier");
            if (x.apply_failed && !(x.flags & F::start_transaction)) { VCHECK("C19", ret != 0, "%lld: failed replay is reported as success", x.seqno); end_case(); }
            if (!(x.flags & F::start_transaction) && !ret) rp->after_apply();
            check(x, ret, *rp, pre, pe);
            rp->reset_globals();
            rp->shutdown();
            h.store_globals();
        }
        else
        {
            int ret = chance(1, 2) ? h.apply(wsrep::ws_handle(wsrep::transaction_id(x.key.second), &x), m, wsrep::const_buffer(x.data.data(), x.data.size()))
                : ss.on_apply(h, wsrep::ws_handle(wsrep::transaction_id(x.key.second), &x), m, wsrep::const_buffer(x.data.data(), x.data.size()));
            check(x, ret, h, pre, pe);
        }
    }
    void World::check_view_close()
    {
        W* x = me();
        const wsrep::view& v = x->view;
        if (v.status() == wsrep::view::primary)
        {
            VCHECK("C24", recovers == 1, "streaming transactions recovered %d times for this connection", recovers);
            std::set<Key> closed;
            for (auto& e : exp)
            {
                if (!e.second.sa || e.second.prepared) continue;
                bool equal = have_last_prim && last_prim.members().size() == v.members().size();
                std::set<int> ma, mb;
                if (have_last_prim) for (auto& m : last_prim.members()) ma.insert(oidx(m.id()));
                for (auto& m : v.members()) mb.insert(oidx(m.id()));
                equal = equal && ma == mb;
                if (!equal && mb.count(e.first.first)) { label("transaction of a member survives the view"); continue; }
                label(equal ? "closed by equal consecutive views" : "closed with its origin");
                nontrivial();
                closed.insert(e.first);
            }
            for (auto& k : closed)
            {
                exp[k] = Exp();
                if (!adopt_failed.count(k)) estore.erase(k);
            }
            for (auto& k : removed_in_view) VCHECK("C23", closed.count(k), "fragments of %d:%llu removed by the view", k.first, (unsigned long long)k.second);
            last_prim = v; have_last_prim = true;
        }
        else if (v.status() == wsrep::view::disconnected || v.is_final())
        {
            for (auto& e : exp) if (e.second.sa) { nontrivial(); label("closed at disconnect"); e.second = Exp(); }
            VCHECK("C24", removed_in_view.empty(), "fragments removed at disconnect");
            VCHECK("C24 C20", ss.state() == wsrep::server_state::s_disconnected && ss.id().is_undefined(), "identity kept after disconnect");
        }
        check_sas("view");
        VCHECK("C23 C24", store == estore, "fragment storage after the view differs from expectation");
    }
    void World::view(AHps& h, W& x)
    {
        trace("%s: view status %d members %zu final %d", h.nm().c_str(), (int)x.view.status(), x.view.members().size(), (int)x.view.is_final());
        mix(0x100 + x.view.members().size() * 4 + uint64_t(x.view.status()));
        if (ss.state() == wsrep::server_state::s_disconnected)
        {
            recovers = 0;
            ss.on_connect(x.view);
            VCHECK("C20", ss.state() == wsrep::server_state::s_connected && ss.id() == origins[0], "not connected");
            // recovery rebuilds what is in storage
            for (auto& s : estore)
            {
                Exp& e = exp[s.first];
                e.sa = true; e.applied.clear();
                for (auto& f : s.second) { e.applied.push_back(f.data); e.prepared = f.flags & F::prepare; }
            }
        }
        else if (x.view.status() == wsrep::view::disconnected && chance(1, 2)) ss.disconnect();
        logged = 0; removed_in_view.clear(); adopt_failed.clear();
        in_view = true;
        ss.on_view(x.view, &h);
        in_view = false;
        VCHECK("C23 C20", logged == 1, "view was recorded %d times", logged);
        VCHECK("C18 C08 C23 C24", ctx[current_id()] == &h, "thread context after the view is not the applier's");
        VCHECK("C23", !h.active && !h.hc.transaction().active(), "applier left with open transaction by the view");
        if (x.view.status() == wsrep::view::primary)
        {
            VCHECK("C20", ss.state() == wsrep::server_state::s_joined || ss.state() == wsrep::server_state::s_synced, "state %d after primary view", (int)ss.state());
            if (chance(2, 3)) ss.on_sync();
        }
    }
    bool World::next(W*& x)
    {
        if (taken == todo) return false;
        while (ws.size() <= taken) generate();
        x = ws[taken++].get();
        return true;
    }
    void World::applier(int)
    {
        AHps h(*this, false, false);
        h.open();
        ctx[current_id()] = nullptr;
        h.store_globals();
        W* x;
        while (next(x))
        {
            const size_t pos = taken - 1;
            World* self = this;
            W* xp = x;
            wait_for("dependencies", [self, pos, xp] {
                for (size_t i = 0; i < pos; ++i)
                {
                    const W& y = *self->ws[i];
                    if (!y.done && (y.barrier || xp->barrier || y.key == xp->key || (xp->flags & F::rollback && 0))) return false;
                }
                return true; });
            cur[current_id()] = x;
            yield();
            if (x->kind == k_view) view(h, *x); else deliver(h, *x);
            cur.erase(current_id());
            x->done = true;
            yield();
        }
        h.reset_globals();
        h.shutdown();
    }
    void engine()
    {
        World w;
        w.ss.set_provider_factory([&w](wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
                                  { return std::unique_ptr<wsrep::provider>(w.prov = new Prov(s, w)); });
        w.ss.load_provider("scripted", "");
        w.rate = prop_is("C19") ? int(draw(4)) : chance(1, 3) ? int(draw(3)) : 0;
        w.vrate = chance(1, 4) ? 1 : 0;
        w.arate = chance(1, 4) ? 2 : 0;
        set_switch_rate(1 + draw(4));
        int n = 1 + int(range(0, 2));
        spawn("setup", [&w] {
            w.ss.initialized();
            wsrep::view v(w.mkview(true, w.members, false));
            std::unique_ptr<W> x(new W);
            x->kind = k_view; x->barrier = true; x->view = v; x->done = false;
            w.ws.push_back(std::move(x));
        });
        run();
        w.todo = 3 + range(0, 24);
        for (int i = 0; i < n; ++i) spawn(strf("applier%d", i), [&w, i] { w.applier(i); });
        run();
        w.check_sas("end");
        VCHECK("C18 C19", w.store == w.estore, "fragment storage differs from expectation");
        VCHECK("C18 C19", w.db.size() == w.edb.size(), "%zu commits, %zu expected", w.db.size(), w.edb.size());
        for (size_t i = 1; i < w.db.size(); ++i) VCHECK("C18 C01", w.db[i - 1].seqno < w.db[i].seqno, "commits out of order");
        VCHECK("C18", w.storages == 0, "storage service was not released");
        VCHECK("C20", w.bootstraps == 0, "bootstrap without request");
        // close
        spawn("close", [&w] {
            AHps h(w, false, false);
            h.open();
            w.ctx[current_id()] = nullptr;
            h.store_globals();
            if (w.ss.state() != wsrep::server_state::s_disconnected)
            {
                W x;
                x.kind = k_view; x.view = w.mkview(false, std::vector<int>(), true);
                w.cur[current_id()] = &x;
                w.view(h, x);
                w.cur.erase(current_id());
            }
            h.reset_globals();
            h.shutdown();
        });
        run();
        VCHECK("C24", w.nsa == 0, "streaming appliers left");
    }
    Registrar r_apply("apply", engine, "a write set met an open streaming applier, or a view or disconnect closed one");
}
