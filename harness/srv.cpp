// Engine "srv" (C20, C21, C22, C24, C26): life cycle of one server. A provider thread delivers
// connections, views, state transfers, donor requests, sync and close; a server thread
// initialises storage before or after the transfer; transfer scripts, disconnecting threads
// and state waiters run concurrently. Oracles: rules every state change must obey, expected
// state after each provider event, the history of states seen by each waiter, and a
// reference of how each state transfer must be answered.
#include "svc.hpp"
#include <algorithm>
#include <cerrno>
using namespace vf;
namespace
{
    typedef wsrep::provider P;
    typedef enum wsrep::provider::status PS;
    typedef wsrep::server_state SS;
    typedef enum SS::state St;
    const wsrep::id gid("group"), gid2("other");
    const char* stn(int s) { static const char* n[] = { "disconnected", "initializing", "initialized", "connected", "joiner", "joined", "donor", "synced", "disconnecting" }; return n[s]; }
    struct World;
    struct TrackMutex : public Mutex
    {
        World* w = nullptr;
        TrackMutex() : Mutex("server") { }
        void lock() override;
        void unlock() override;
    };
    struct Prov : public FakeProvider
    {
        World& w;
        Prov(wsrep::server_state& s, World& ww) : FakeProvider(s), w(ww) { }
        S connect(const std::string&, const std::string&, const std::string&, bool) override;
        int disconnect() override;
        S sst_sent(const wsrep::gtid&, int) override;
        S sst_received(const wsrep::gtid&, int) override;
    };
    struct Service : public NullServerService
    {
        World* w = nullptr;
        void bootstrap() override;
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override;
        void recover_streaming_appliers(wsrep::client_service&) override;
        void recover_streaming_appliers(wsrep::high_priority_service&) override;
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override;
        wsrep::gtid get_position(wsrep::client_service&) override;
        void log_state_change(St, St) override;
        bool sst_before_init() const override;
        std::string sst_request() override;
        int start_sst(const std::string&, const wsrep::gtid&, bool) override;
        void debug_sync(const char*) override { yield(); }
    };
    // applier service of the provider thread; nothing streams here
    struct Hps : public wsrep::high_priority_service
    {
        Mutex mx; Cond cv; NullClientService svc; TestClientState hc;
        explicit Hps(wsrep::server_state& s) : wsrep::high_priority_service(s), mx("hps"), cv("hps"), hc(mx, cv, s, svc, 99, wsrep::client_state::m_high_priority) { }
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return 0; }
        int next_fragment(const wsrep::ws_meta&) override { return 0; }
        const wsrep::transaction& transaction() const override { return hc.transaction(); }
        int adopt_transaction(const wsrep::transaction&) override { return 0; }
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override { return 0; }
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&, const wsrep::xid&) override { return 0; }
        int remove_fragments(const wsrep::ws_meta&) override { return 0; }
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return 0; }
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return 0; }
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override { return 0; }
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override { return 0; }
        void after_apply() override { }
        void store_globals() override { }
        void reset_globals() override { }
        void switch_execution_context(wsrep::high_priority_service&) override { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) override { return 0; }
        void adopt_apply_error(wsrep::mutable_buffer&) override { }
        bool is_replaying() const override { return false; }
        void debug_crash(const char*) override { }
    };
    struct Wait
    {
        bool main = false;
        size_t last = 0; // length of the history when the waiter let the server mutex go last
        int target = 0; size_t reg = 0; bool active = false, registered = false; bool has_seen = false;
    };
    struct Op { std::string name; long long seqno; bool primary; };
    struct World
    {
        TrackMutex smx; Cond scv{"server"}; Service svc; TestServerState ss; Prov* prov = nullptr;
        bool sst_first = false, spur = false;
        // history: hist[0] is the initial state
        std::vector<int> hist{ int(SS::s_disconnected) };
        std::vector<int> by{ 0 };           // fibre which made the change
        std::map<int, Op> op;               // fibre -> server_state call in progress
        std::map<int, Wait*> waits;         // fibre -> wait in progress
        // connection
        bool started = false, finished = false, conn = false, closing = false, h_done = true, in_join = false, sst_open = false, sst_called = false;
        int connects = 0, disconnects = 0; long long pos = 0, vseq = 0; wsrep::gtid connected; wsrep::id own; int nid = 0;
        bool main_pending = false, final_started = false, want_sync = false, want_boot = false; int boots = 0; bool got_on_connect = false, prim_done = false;
        std::string cname, caddr, cdonor; bool cboot = false;
        // initialisation
        bool init_called = false, init_done = false, initwin = false, synced_once = false;
        // state transfer
        bool sst_failed = false, sst_answered = false; int sst_answers = 0; wsrep::gtid sst_gtid; int sst_error = 0; PS sst_ret = P::success;
        wsrep::gtid posn; wsrep::view recovered; int storage_throw = 0; bool storage_threw = false; int get_pos = 0, logged_null = 0, recoveries = 0, recovered_conn = 0, logged = 0; bool in_sst = false;
        wsrep::view logged_view;
        bool donor = false, donor_running = false; std::string req; wsrep::gtid dgtid; bool bypass = false; int start_ret = 0, started_sst = 0, sent = 0, sent_err = 0; wsrep::gtid sent_gtid;
        int killers = 0;
        World() : ss(smx, scv, svc, "s1") { svc.w = this; smx.w = this; }
        int state() const { return hist.back(); }
        void call(const char* n, std::function<void()> f, long long s = 0, bool prim = false);
        int wait(int target, bool main = false);
        wsrep::view mkview(bool prim, bool final, long long s);
        void session(); bool join(bool sst); void provider_thread(); void main_thread(); void sst_thread(); void donor_thread(); void killer(int); void waiter(int);
        bool on_view(const wsrep::view& v, Hps& h); void expect(std::initializer_list<int> s, const char* after, const char* props = "C20"); void expect_quiet(const char*);
        Hps* hps = nullptr;
    };
    void TrackMutex::lock()
    {
        Mutex::lock();
        auto i = w->waits.find(current_id());
        if (i != w->waits.end() && !i->second->registered) { i->second->registered = true; i->second->reg = w->hist.size() - 1; if (i->second->main) w->main_pending = false; }
    }

    void TrackMutex::unlock()
    {
        auto i = w->waits.find(current_id());
        if (i != w->waits.end()) i->second->last = w->hist.size();
        Mutex::unlock();
    }

    // ---- observation ------------------------------------------------------
    void Service::log_state_change(St from, St to)
    {
        World& W = *w;
        trace("  state %s -> %s", stn(from), stn(to));
        VCHECK("C20 C04", W.smx.mine(), "state changed without the server mutex");
        VCHECK("C20", int(from) == W.hist.back(), "state change from %s reported, state was %s", stn(from), stn(W.hist.back()));
        const int f = current_id();
        VCHECK("C20", W.op.count(f), "state changed to %s outside of any call", stn(to));
        const Op& o = W.op[f];
        auto in = [&](std::initializer_list<const char*> l) { for (auto n : l) if (o.name == n) return true; return false; };
        auto fr = [&](std::initializer_list<int> l) { for (auto n : l) if (from == n) return true; return false; };
        const bool full = W.connected.seqno().get() <= o.seqno;
        bool ok = false;
        switch (to)
        {
        case SS::s_disconnected: ok = in({"view"}) && !o.primary; break;
        case SS::s_disconnecting: ok = in({"disconnect"}); break;
        case SS::s_initializing: ok = W.sst_first ? in({"sst_received", "view", "sync"}) && fr({SS::s_joiner}) : in({"initialized"}) && fr({SS::s_disconnected}); break;
        case SS::s_initialized: ok = W.init_called && fr({SS::s_initializing}) && (in({"initialized"}) || (W.sst_first && in({"view"}))); break;
        case SS::s_connected: ok = in({"connect"}) || (in({"view"}) && !o.primary); break;
        case SS::s_joiner: ok = fr({SS::s_connected}) && (in({"prepare_for_sst", "view"}) || (in({"sync"}) && W.sst_first)); break;
        case SS::s_joined:
            VCHECK("C20 C22", W.init_called, "joined before storage was initialised (in %s)", o.name.c_str());
            if (in({"view"})) { VCHECK("C20", o.primary && full, "joined with a view at %lld, connected at %lld", o.seqno, W.connected.seqno().get()); ok = fr({SS::s_joiner, SS::s_initialized}); }
            else if (in({"sst_received"})) { VCHECK("C20 C22", W.get_pos > 0 && W.posn.seqno().get() >= W.connected.seqno().get(), "joined with a state transfer at %lld, connected at %lld", W.posn.seqno().get(), W.connected.seqno().get()); ok = fr({SS::s_joiner, SS::s_initialized}); }
            else if (in({"sync"})) ok = fr({SS::s_initialized}) && W.sst_first;
            else ok = in({"start_sst", "sst_sent"}) && fr({SS::s_donor});
            break;
        case SS::s_donor: ok = in({"start_sst"}); break;
        case SS::s_synced: ok = in({"sync"}); break;
        default: break;
        }
        VCHECK("C20", ok, "state %s -> %s in %s", stn(from), stn(to), o.name.c_str());
        VCHECK("C20 C21", from != SS::s_disconnecting || to == SS::s_disconnected, "left disconnecting for %s", stn(to));
        W.hist.push_back(to);
        W.by.push_back(f);
        mix(uint64_t(from) * 16 + uint64_t(to));
        if (to == SS::s_initializing && W.sst_first && !W.init_called) W.initwin = true;
        if (to == SS::s_synced) { label("synced"); }
    }
    bool Service::sst_before_init() const { return w->sst_first; }
    std::string Service::sst_request() { VCHECK("C20 C22", !w->smx.mine(), "server mutex held in sst_request"); return "please"; }
    void Service::bootstrap()
    {
        World& W = *w;
        VCHECK("C20", W.want_boot, "bootstrap was not requested");
        ++W.boots;
        VCHECK("C20", W.boots == 1, "bootstrapped %d times", W.boots);
        VCHECK("C20", W.op.count(current_id()) && W.op[current_id()].name == "view" && W.op[current_id()].primary, "bootstrap outside of a primary view");
        VCHECK("C20", W.init_called, "bootstrap before storage was initialised");
        label("bootstrap");
    }
    void Service::log_view(wsrep::high_priority_service* h, const wsrep::view& v)
    {
        World& W = *w;
        VCHECK("C20 C22 C23", W.op.count(current_id()), "view recorded outside of any call");
        VCHECK("C04 C26", !W.smx.mine(), "server mutex held in log_view");
        if (W.op[current_id()].name == "sst_received") { VCHECK("C22", !h, "recovered view stored again"); ++W.logged_null; }
        else { VCHECK("C23 C20", h == W.hps, "view recorded without applier"); ++W.logged; }
        W.logged_view = v;
    }
    void Service::recover_streaming_appliers(wsrep::client_service&)
    {
        World& W = *w;
        VCHECK("C24 C22", W.in_sst && W.op[current_id()].name == "sst_received" && !W.sst_answered, "streaming transactions recovered after the transfer was reported");
        ++W.recoveries; ++W.recovered_conn;
        VCHECK("C24", W.recovered_conn == 1, "streaming transactions recovered %d times", W.recovered_conn);
        VCHECK("C04 C26", !W.smx.mine(), "server mutex held in recovery");
        yield();
    }
    void Service::recover_streaming_appliers(wsrep::high_priority_service&)
    {
        World& W = *w;
        VCHECK("C24 C23", W.op[current_id()].name == "view" && W.op[current_id()].primary, "recovery outside of a primary view");
        ++W.recoveries; ++W.recovered_conn;
        VCHECK("C24", W.recovered_conn == 1, "streaming transactions recovered %d times", W.recovered_conn);
        VCHECK("C04 C26", !W.smx.mine(), "server mutex held in recovery");
        VCHECK("C24", W.init_called, "recovery before storage was initialised");
        yield();
    }
    wsrep::gtid Service::get_position(wsrep::client_service&)
    {
        World& W = *w;
        VCHECK("C22", W.in_sst && W.init_called, "position read %s", W.init_called ? "outside of state transfer" : "before storage was initialised");
        ++W.get_pos;
        yield();
        if (W.storage_throw == 1) { W.storage_threw = true; throw wsrep::runtime_error("position cannot be read"); }
        return W.posn;
    }
    wsrep::view Service::get_view(wsrep::client_service&, const wsrep::id& id)
    {
        World& W = *w;
        VCHECK("C22", W.in_sst && id == W.own, "view recovered for another identity");
        yield();
        if (W.storage_throw == 2) { W.storage_threw = true; throw wsrep::runtime_error("view cannot be read"); }
        return W.recovered;
    }
    int Service::start_sst(const std::string& r, const wsrep::gtid& g, bool b)
    {
        World& W = *w;
        VCHECK("C22", r == W.req && g == W.dgtid && b == W.bypass, "donor request changed on the way");
        VCHECK("C22 C26", !W.smx.mine(), "server mutex held in start_sst");
        ++W.started_sst;
        yield();
        return W.start_ret;
    }

    // ---- provider --------------------------------------------------------
    PS Prov::connect(const std::string& n, const std::string& a, const std::string& d, bool b)
    {
        VCHECK("C20", n == w.cname && a == w.caddr && d == w.cdonor && b == w.want_boot, "connection parameters changed on the way (bootstrap %d)", (int)b);
        ++w.connects;
        w.conn = true; w.h_done = false; w.closing = false;
        yield();
        return success;
    }
    int Prov::disconnect()
    {
        VCHECK("C21 C20", !w.smx.mine(), "server mutex held in disconnect");
        ++w.disconnects;
        VCHECK("C21 C20", w.disconnects == 1, "provider disconnected %d times", w.disconnects);
        w.closing = true;
        yield();
        return 0;
    }
    PS Prov::sst_received(const wsrep::gtid& g, int e)
    {
        World& W = w;
        VCHECK("C22 C26", !W.smx.mine(), "server mutex held in sst_received");
        VCHECK("C22", W.in_sst, "state transfer reported outside of its reception");
        ++W.sst_answers;
        VCHECK("C22", W.sst_answers == 1, "state transfer answered %d times", W.sst_answers);
        W.sst_gtid = g; W.sst_error = e;
        trace("  provider.sst_received %s:%lld %d", g.is_undefined() ? "undefined" : "gtid", g.seqno().get(), e);
        yield();
        return W.sst_ret;
    }
    PS Prov::sst_sent(const wsrep::gtid& g, int e)
    {
        World& W = w;
        VCHECK("C22 C26", !W.smx.mine(), "server mutex held in sst_sent");
        VCHECK("C22", W.op.count(current_id()) && W.op[current_id()].name == "sst_sent", "sst_sent out of place");
        ++W.sent;
        VCHECK("C22", W.sent == 1 && g == W.sent_gtid && e == W.sent_err, "donor result reported %d times as %lld/%d", W.sent, g.seqno().get(), e);
        VCHECK("C22 C20", W.state() != SS::s_donor, "donor result reported while still donor");
        W.donor = false;
        return chance(1, 4) ? error_connection_failed : success;
    }

    // ---- actors ------------------------------------------------------------
    void World::call(const char* n, std::function<void()> f, long long s, bool prim)
    {
        trace("%s %s(%lld) in %s", ("f" + std::to_string(current_id())).c_str(), n, s, stn(state()));
        Op o; o.name = n; o.seqno = s; o.primary = prim;
        op[current_id()] = o;
        try { f(); } catch (...) { op.erase(current_id()); throw; }
        op.erase(current_id());
        yield();
    }
    int World::wait(int target, bool main)
    {
        Wait wt;
        wt.main = main;
        wt.target = target; wt.active = true;
        waits[current_id()] = &wt;
        trace("f%d waits for %s in %s", current_id(), stn(target), stn(state()));
        int r = ss.wait_until_state(St(target));
        waits.erase(current_id());
        bool seen = false, disc = false;
        for (size_t i = wt.reg; i < hist.size(); ++i)
        {
            if (hist[i] == target) seen = true;
            if (i > wt.reg && hist[i] == SS::s_disconnected) disc = true;
            if (hist[i] == SS::s_disconnecting) disc = true;
        }
        if (r == 0)
        {
            VCHECK("C21", seen, "waiting for %s succeeded without that state", stn(target));
            for (size_t i = wt.reg; i < hist.size(); ++i)
            {
                if (hist[i] != target) continue;
                if (i > wt.reg) label("state delivered to waiter");
                if (i > wt.reg && i + 1 < wt.last) VCHECK("C21", by[i + 1] != by[i], "server moved on from %s to %s before the waiting thread got to know", stn(target), stn(hist[i + 1]));
                break;
            }
        }
        else
        {
            label("state wait interrupted");
            VCHECK("C21", target != SS::s_disconnecting && target != SS::s_disconnected, "waiting for %s failed", stn(target));
            VCHECK("C21", disc, "waiting for %s failed without disconnect", stn(target));
        }
        return r;
    }
    wsrep::view World::mkview(bool prim, bool final, long long s)
    {
        std::vector<wsrep::view::member> m;
        int oi = -1;
        if (!final)
        {
            int n = int(draw(3)), at = int(draw(uint32_t(n + 1)));
            for (int i = 0; i <= n; ++i) m.push_back(wsrep::view::member(i == at ? own : wsrep::id(strf("m%d", i)), "n", ""));
            oi = at;
        }
        return wsrep::view(wsrep::gtid(gid, wsrep::seqno(s)), wsrep::seqno(prim ? ++vseq : -1),
                           final ? (chance(1, 2) ? wsrep::view::disconnected : wsrep::view::non_primary) : prim ? wsrep::view::primary : wsrep::view::non_primary, 0, oi, 1, m);
    }
    void World::expect(std::initializer_list<int> l, const char* after, const char* props)
    {
        const int s = ss.state();
        if (s == SS::s_disconnecting || s == SS::s_disconnected) { if (closing || s == SS::s_disconnecting) return; }
        for (int i : l) if (s == i) return;
        fail(props, "state %s after %s", stn(s), after);
    }
    bool World::on_view(const wsrep::view& v, Hps& h)
    {
        logged = 0;
        const bool prim = v.status() == wsrep::view::primary, was_init = ss.is_initialized();
        try
        {
            call("view", [&] { ss.on_view(v, &h); }, v.state_id().seqno().get(), prim);
        }
        catch (const wsrep::runtime_error&)
        {
            label("view interrupted by disconnect");
            VCHECK("C20 C21", prim && !was_init && state() == SS::s_disconnecting, "view delivery failed in state %s", stn(state()));
            return false;
        }
        VCHECK("C20 C23", logged == 1 && logged_view.state_id() == v.state_id() && logged_view.status() == v.status(), "view recorded %d times", logged);
        if (prim) { prim_done = true; VCHECK("C20", boots == want_boot, "bootstrapped %d times, requested %d", boots, (int)want_boot); VCHECK("C24", recovered_conn == 1, "streaming transactions recovered %d times for this connection", recovered_conn); }
        return true;
    }
    void World::sst_thread()
    {
        NullClientService cs;
        for (uint32_t i = draw(4); i > 0; --i) yield();
        const int err = chance(1, 6) ? (chance(1, 2) ? -EINTR : EIO) : 0;
        const long long c = connected.seqno().get();
        posn = wsrep::gtid(chance(1, 12) ? gid2 : gid, wsrep::seqno(c + (chance(1, 3) ? -1 - (long long)draw(2) : (long long)draw(3))));
        if (posn.seqno().get() < 0) posn = wsrep::gtid(posn.id(), wsrep::seqno(0));
        if (chance(1, 5)) recovered = wsrep::view();
        else
        {
            std::vector<wsrep::view::member> m;
            m.push_back(wsrep::view::member(own, "n", ""));
            long long s = posn.seqno().get() + (chance(1, 8) ? 1 + (long long)draw(2) : -(long long)draw(3));
            recovered = wsrep::view(wsrep::gtid(chance(1, 12) ? gid2 : chance(1, 12) ? wsrep::id::undefined() : posn.id(), wsrep::seqno(s)), wsrep::seqno(vseq), wsrep::view::primary, 0, 0, 1, m);
        }
        const bool vundef = recovered.state_id().id().is_undefined();
        const bool bogus = !vundef && (recovered.state_id().id() != posn.id() || recovered.state_id().seqno().get() > posn.seqno().get());
        sst_ret = chance(1, 8) ? P::error_connection_failed : P::success;
        get_pos = logged_null = 0; sst_answers = 0; in_sst = true;
        storage_throw = chance(1, 10) ? 1 + (int)draw(2) : 0; storage_threw = false;
        const int rec0 = recoveries;
        const bool had_rec = recovered_conn;
        const wsrep::view before(ss.current_view());
        sst_called = true;
        int r = -1;
        nontrivial();
        call("sst_received", [&] { r = ss.sst_received(cs, err); }, posn.seqno().get());
        in_sst = false; storage_throw = 0;
        VCHECK("C22", sst_answers == 1, "state transfer was answered %d times", sst_answers);
        trace("sst result %d err %d pos %lld view %lld bogus %d", r, err, posn.seqno().get(), recovered.state_id().seqno().get(), (int)bogus);
        bool interrupted = false;
        if (err)
        {
            label("state transfer failed");
            VCHECK("C22", sst_gtid.is_undefined() && sst_error == err, "failed transfer reported as %lld / %d", sst_gtid.seqno().get(), sst_error);
            VCHECK("C22", get_pos == 0 && logged_null == 0 && recoveries == rec0, "storage used after a failed transfer");
            VCHECK("C22", (r != 0) == (sst_ret != P::success), "result %d", r);
        }
        else if (storage_threw)
        {
            label("storage failed after the transfer");
            VCHECK("C22", sst_gtid.is_undefined() && sst_error != 0, "position %lld reported with %d although the storage could not be read", sst_gtid.seqno().get(), sst_error);
            VCHECK("C22", r != 0, "failure of the storage is not reported");
            VCHECK("C22 C04 C26", !smx.mine(), "server mutex held after the failure");
        }
        else if (bogus || (sst_error && (state() == SS::s_disconnecting || state() == SS::s_disconnected)))
        {
            interrupted = !bogus || get_pos == 0;
            label(interrupted ? "state transfer interrupted by disconnect" : "state transfer with bogus position");
            VCHECK("C22", sst_gtid.is_undefined() && sst_error != 0, "position %lld with view at %lld was accepted (%d)", posn.seqno().get(), recovered.state_id().seqno().get(), sst_error);
            VCHECK("C22", r != 0, "refused transfer is not reported");
            VCHECK("C22", logged_null == 0 && ss.current_view().state_id() == before.state_id(), "view of a refused transfer is used");
            VCHECK("C22 C24", recoveries == rec0, "recovery from a refused transfer");
        }
        else
        {
            label(vundef ? "state transfer without stored view" : "state transfer accepted");
            VCHECK("C22", sst_gtid == posn && sst_error == 0, "position %lld reported as %lld / %d", posn.seqno().get(), sst_gtid.seqno().get(), sst_error);
            VCHECK("C22", (r != 0) == (sst_ret != P::success), "result %d", r);
            VCHECK("C22 C24", recoveries == rec0 + !had_rec, "recovered %d times", recoveries - rec0);
            VCHECK("C22", logged_null == !vundef, "recovered view recorded %d times", logged_null);
            if (!vundef) VCHECK("C22", ss.current_view().state_id() == recovered.state_id() && ss.current_view().members().size() == 1, "recovered view is not the current one");
            else VCHECK("C22", ss.current_view().state_id() == before.state_id(), "current view changed");
        }
        sst_failed = r != 0 || err;
        sst_open = false;
        sst_answered = true;
    }
    void World::donor_thread()
    {
        for (uint32_t i = draw(5); i > 0; --i) yield();
        const bool lost = state() != SS::s_donor;
        sent = 0; sent_gtid = wsrep::gtid(gid, wsrep::seqno(pos)); sent_err = chance(1, 4) ? -EINTR : 0;
        const size_t h = hist.size();
        call("sst_sent", [&] { ss.sst_sent(sent_gtid, sent_err); });
        VCHECK("C22", sent == 1, "donor result reported %d times", sent);
        bool joined = false, left = false;
        for (size_t i = h; i < hist.size(); ++i) { if (hist[i] == SS::s_joined && hist[i - 1] == SS::s_donor) joined = true; if (hist[i] != SS::s_joined) left = true; }
        if (!lost) VCHECK("C20 C22", joined || left, "donor did not return to joined");
        if (lost) label("donor role lost before the end");
        nontrivial();
        donor_running = false;
    }
    bool World::join(bool sst)
    {
        Hps& h = *hps;
        const bool was_init = ss.is_initialized();
        if (sst)
        {
            std::string r;
            sst_answered = sst_failed = sst_called = false; sst_open = true;
            call("prepare_for_sst", [&] { r = ss.prepare_for_sst(); });
            VCHECK("C20 C22", r == "please", "request '%s'", r.c_str());
            if (!closing) expect({ SS::s_joiner }, "state transfer request");
            World* w = this;
            spawn("sst", [w] { w->sst_thread(); });
            wait_for("state transfer", [w] { return w->sst_answered; });
            if (sst_failed) { label("joining failed"); return false; }
            if (sst_gtid.seqno().get() >= connected.seqno().get()) expect({ SS::s_joined }, "state transfer", "C20 C22");
            else if (sst_first && !was_init) expect({ SS::s_initialized }, "state transfer behind the connection point", "C20 C22");
            else { expect({ SS::s_joiner }, "state transfer behind the connection point", "C20 C22"); label("state transfer behind the connection point"); }
        }
        const int st0 = ss.state();
        const long long c = connected.seqno().get();
        if (st0 < SS::s_joined && chance(1, 8) && c > 0)
        {   // a view from before the connection point
            label("view before the connection point");
            if (!on_view(mkview(true, false, c - 1), h)) return false;
            if (!closing) expect({ SS::s_joiner, SS::s_initialized }, "view behind the connection point");
        }
        if (!on_view(mkview(true, false, pos += draw(2)), h)) return false;
        expect({ SS::s_joined }, "primary view");
        return true;
    }
    void World::session()
    {
        Hps h(ss);
        hps = &h;
        World* w = this;
        got_on_connect = prim_done = false; recovered_conn = 0; disconnects = 0;
        own = wsrep::id(strf("own%d", nid++));
        pos += draw(3);
        yield();
        auto late = [&] {
            while (chance(1, 3))
            {
                label("late event while disconnecting");
                switch (draw(3))
                {
                case 0: call("sync", [&] { ss.on_sync(); }); synced_once = true; break;
                case 1: on_view(mkview(false, false, pos), h); break;
                default: on_view(mkview(true, false, pos), h); break;
                }
            }
        };
        bool alive = true;
        if (closing && chance(1, 2)) alive = false;
        if (alive)
        {
            const wsrep::view v(mkview(true, false, pos));
#ifdef NDEBUG
            if (chance(1, 30))
            {   // a view without own member is refused (debug builds assert)
                label("invalid view on connect");
                const int st = state();
                const int n = chance(1, 2) ? -1 : int(v.members().size());
                const wsrep::view bad(v.state_id(), v.view_seqno(), v.status(), 0, n, 1, v.members());
                bool thrown = false;
                call("bad connect", [&] { try { ss.on_connect(bad); } catch (const wsrep::runtime_error&) { thrown = true; } });
                VCHECK("C20", thrown && ss.id().is_undefined() && (state() == st || state() == SS::s_disconnecting), "connection without own member was %s", thrown ? "recorded" : "accepted");
            }
#endif
            connected = v.state_id();
            call("connect", [&] { ss.on_connect(v); });
            got_on_connect = true;
            expect({ SS::s_connected }, "connection");
            VCHECK("C20", ss.id() == own && ss.connected_gtid() == v.state_id(), "identity or position after connection");
#ifdef NDEBUG
            if (chance(1, 30))
            {   // another identity while connected
                label("second connection with another identity");
                std::vector<wsrep::view::member> m{ wsrep::view::member(wsrep::id("other"), "n", "") };
                const wsrep::view bad(v.state_id(), v.view_seqno(), v.status(), 0, 0, 1, m);
                bool thrown = false;
                call("bad connect", [&] { try { ss.on_connect(bad); } catch (const wsrep::runtime_error&) { thrown = true; } });
                VCHECK("C20", thrown && ss.id() == own, "identity changed within a connection");
            }
#endif
            if (closing) late();
            bool seed = false;
            if (sst_first && !synced_once && !init_done && chance(1, 6))
            {   // provider is synced with itself first
                label("seed synced before view");
                seed = true;
                call("sync", [&] { ss.on_sync(); });
                synced_once = true;
                expect({ SS::s_initializing, SS::s_initialized }, "seed sync");
            }
            if (!closing) alive = join(!seed && !want_boot && chance(1, 2));
            else alive = false;
            int steps = int(range(0, 6));
            auto sync = [&] {
                call("sync", [&] { ss.on_sync(); });
                synced_once = true;
                expect({ SS::s_synced }, "sync");
            };
            if (alive && !closing && chance(5, 6)) sync();
            while (alive && !closing && steps-- > 0)
            {
                if (donor_running) { for (uint32_t i = draw(4); i > 0; --i) yield(); }
                const int st = ss.state();
                if (closing || st == SS::s_disconnecting) break;
                switch (wpick({ 2, 3, 3, 2, 1 }))
                {
                case 0: // membership change
                    on_view(mkview(true, false, pos += draw(2)), h);
                    expect({ st, st == SS::s_donor ? int(SS::s_joined) : st }, "membership change");
                    break;
                case 1: // partition and merge
                    label("partition");
                    nontrivial();
                    on_view(mkview(false, false, pos), h);
                    expect({ SS::s_connected }, "loss of primary component");
                    if (closing) break;
                    if (chance(1, 3)) { on_view(mkview(false, false, pos), h); expect({ SS::s_connected }, "another non-primary view"); if (closing) break; }
                    alive = join(!donor_running && chance(1, 3));
                    if (alive && !closing && !donor && chance(3, 4)) sync();
                    break;
                case 2: // donor
                    if (donor || donor_running || (st != SS::s_synced && st != SS::s_joined)) break;
                    {
                        label("donor");
                        if (st == SS::s_joined) sync();
                        if (closing) break;
                        req = strf("req%d", int(draw(100))); dgtid = wsrep::gtid(gid, wsrep::seqno(pos - 1)); bypass = chance(1, 3); start_ret = chance(1, 4) ? 1 : 0;
                        started_sst = 0;
                        int r = 0;
                        donor = true;
                        call("start_sst", [&] { r = ss.start_sst(req, dgtid, bypass); });
                        VCHECK("C22", started_sst == 1 && (r != 0) == (start_ret != 0), "donor start %d, result %d", started_sst, r);
                        if (r) { donor = false; expect({ SS::s_joined }, "failed donor start", "C20 C22"); if (!closing && chance(2, 3)) sync(); }
                        else
                        {
                            expect({ SS::s_donor }, "donor start");
                            donor_running = true;
                            spawn("donor", [w] { w->donor_thread(); });
                            if (chance(1, 2))
                            {
                                wait_for("donor end", [w] { return !w->donor_running || w->closing; });
                                if (!closing) { expect({ SS::s_joined }, "donor end", "C20 C22"); if (chance(3, 4)) sync(); }
                            }
                        }
                    }
                    break;
                case 3: // sync event again, as after a desync of the whole node
                    if (!donor && (st == SS::s_joined || st == SS::s_synced)) sync();
                    break;
                default:
                    for (uint32_t i = draw(6); i > 0; --i) yield();
                    break;
                }
            }
        }
        started = true;
        if (!alive && got_on_connect && !closing) wait_for("shutdown after failure", [w] { return w->closing; });
        if (!closing && chance(1, 4)) { label("closed by provider"); }
        else
        {
            wait_for("close", [w] { return w->closing || w->want_sync; });
            if (!closing && alive && want_sync)
            {   // the server waits for sync
                wait_for("donor end", [w] { return !w->donor_running || w->closing; });
                donor = false;
                if (!closing) call("sync", [&] { ss.on_sync(); });
            }
            wait_for("close", [w] { return w->closing; });
            if (got_on_connect && !initwin && ss.state() == SS::s_disconnecting) late();
        }
        wait_for("donor end", [w] { return !w->donor_running; });
        // storage initialisation is not overtaken by the end of the connection
        wait_for("initialisation", [w] { return !w->initwin && !w->sst_open && !w->main_pending; });
        final_started = true;
        donor = false;
        const bool was = ss.state() == SS::s_disconnected;
        const wsrep::view fv(mkview(false, true, -1));
        if (!was)
        {
            on_view(fv, h);
            VCHECK("C20", ss.state() == SS::s_disconnected && ss.id().is_undefined(), "state %s after the end of the connection", stn(ss.state()));
        }
        trace("connection ended");
        hps = nullptr;
        conn = false;
        h_done = true;
    }
    void World::provider_thread()
    {
        World* w = this;
        while (true)
        {
            wait_for("connect", [w] { return w->conn || w->finished; });
            if (!conn) return;
            session();
        }
    }
    void World::main_thread()
    {
        World* w = this;
        const int cycles = 1 + int(range(0, 2));
        for (int c = 0; c < cycles; ++c)
        {
            mix(0x1000 + c);
            if (!sst_first && !init_done)
            {
                init_called = true;
                call("initialized", [&] { ss.initialized(); });
                init_done = true;
                VCHECK("C20", ss.state() == SS::s_initialized && ss.is_initialized(), "state %s after initialisation", stn(ss.state()));
            }
            cname = strf("c%d", int(draw(10))); caddr = chance(1, 4) ? "gcomm://" : "gcomm://a,b"; cdonor = chance(1, 2) ? "d" : ""; cboot = chance(1, 4);
            want_boot = cboot || caddr == "gcomm://"; boots = 0;
            int r = 0;
            started = final_started = false;
            call("connect_call", [&] { r = ss.connect(cname, caddr, cdonor, cboot); });
            VCHECK("C20", r == 0, "connect result %d", r);
            if (sst_first && !init_done)
            {
                r = 1;
                if (!final_started) { main_pending = true; r = wait(SS::s_initializing, true); }
                if (r == 0 && ss.state() == SS::s_initializing)
                {
                    for (uint32_t i = draw(4); i > 0; --i) yield();
                    init_called = true;
                    call("initialized", [&] { ss.initialized(); });
                    init_done = true;
                    label("initialised after state transfer");
                    nontrivial();
                }
                else if (r == 0)
                {   // the server has started to disconnect meanwhile
                    init_called = true;
                    call("initialized", [&] { ss.initialized(); });
                    init_done = true;
                }
                initwin = false;
            }
            if (chance(1, 3)) { if (!final_started) { main_pending = want_sync = true; wait(SS::s_synced, true); want_sync = false; } }
            else if (chance(1, 2)) wait_for("events", [w] { return w->started || w->closing || w->h_done; });
            else for (uint32_t i = draw(40); i > 0; --i) yield();
            if (state() == SS::s_disconnected) wait_for("connected", [w] { return w->got_on_connect || w->closing || w->h_done; });
            call("disconnect", [&] { ss.disconnect(); });
            if (chance(1, 3)) call("disconnect", [&] { ss.disconnect(); });
            if (chance(1, 2)) { r = wait(SS::s_disconnected); VCHECK("C21", r == 0, "waiting for disconnected failed"); }
            wait_for("end of connection", [w] { if (!w->h_done) return false; for (auto& o : w->op) if (o.second.name == "disconnect") return false; return true; });
            got_on_connect = false;
            VCHECK("C20", ss.state() == SS::s_disconnected, "state %s at the end", stn(ss.state()));
        }
        finished = true;
    }
    void World::killer(int)
    {
        World* w = this;
        const bool on_fail = chance(1, 2);
        for (int n = 0; n < 3; ++n)
        {
            uint32_t t = draw(60);
            if (!on_fail || n) for (; t > 0; --t) { yield(); if (finished) return; }
            if (on_fail) wait_for("failure", [w] { return (w->sst_failed && w->sst_answered) || w->finished; });
            if (finished) return;
            if (!conn || !got_on_connect) { if (on_fail) return; continue; }
            label("disconnect by another thread");
            call("disconnect", [&] { ss.disconnect(); });
            return;
        }
    }
    void World::waiter(int)
    {
        for (int n = 0; n < 4 && !finished; ++n)
        {
            for (uint32_t i = draw(12); i > 0; --i) yield();
            if (finished) return;
            label("state waiter");
            wait(int(draw(SS::n_states_)));
            nontrivial();
        }
    }
    void engine()
    {
        World w;
        w.ss.set_provider_factory([&w](wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
                                  { return std::unique_ptr<wsrep::provider>(w.prov = new Prov(s, w)); });
        w.ss.load_provider("scripted", "");
        w.sst_first = chance(1, 2);
        w.pos = draw(4);
        set_switch_rate(1 + draw(4));
        set_spurious(chance(1, 4));
        set_step_limit(200000);
        spawn("provider", [&w] { w.provider_thread(); });
        spawn("main", [&w] { w.main_thread(); });
        uint32_t k = draw(3), n = range(0, 3);
        for (uint32_t i = 0; i < k; ++i) spawn(strf("killer%u", i), [&w, i] { w.killer(int(i)); });
        // a failed transfer always ends in a shutdown
        spawn("watchdog", [&w] {
            World* p = &w;
            int acted = 0;
            while (true)
            {
                wait_for("failure", [p, &acted] { return p->finished || (p->sst_answered && p->sst_failed && p->conn && !p->closing && p->got_on_connect && p->connects != acted); });
                if (w.finished) return;
                acted = w.connects;
                w.call("disconnect", [&] { w.ss.disconnect(); });
            } });
        for (uint32_t i = 0; i < n; ++i) spawn(strf("waiter%u", i), [&w, i] { w.waiter(int(i)); }, true);
        run(true);
        // waiters still waiting must have a reason to
        for (auto& x : w.waits)
        {
            const Wait& t = *x.second;
            if (!t.registered) continue;
            label("still waiting at the end");
            for (size_t i = t.reg; i < w.hist.size(); ++i)
            {
                VCHECK("C21", w.hist[i] != t.target, "thread still waits for %s which the server has taken", stn(t.target));
                if (i > t.reg && t.target != SS::s_disconnected && t.target != SS::s_disconnecting)
                    VCHECK("C21", w.hist[i] != SS::s_disconnected && w.hist[i] != SS::s_disconnecting, "thread still waits for %s after the server disconnected", stn(t.target));
            }
        }
        end_case(); // daemon waiters may remain
    }
    Registrar r_srv("srv", engine, "a state transfer, donor period, partition, late initialisation or concurrent state wait took place");
}
