// Simulated replication group: real wsrep::server_state / client_state objects over
// a model provider (total order, certification, per node commit order) and a
// model DBMS (rows, row locks, fragment store). Everything runs on vf fibres.
#ifndef VF_SIM_HPP
#define VF_SIM_HPP
#include "core.hpp"
#include "fakeprov.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/logger.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/key.hpp"
#include "wsrep/xid.hpp"

namespace sim
{
    typedef enum wsrep::provider::status PS;
    typedef PS S_t;
    typedef enum wsrep::transaction::state TS;
    typedef enum wsrep::client_state::state CS;
    typedef enum wsrep::client_state::mode CM;
    typedef wsrep::provider P;
    typedef wsrep::transaction T;
    typedef wsrep::provider::flag F;
    typedef long long seq_t;

    struct Node; struct Client; struct Hps; struct Group; struct Prov; struct Rec; struct Storage;

    struct Frag { wsrep::id sid; uint64_t tid; seq_t seqno; int flags; std::string data; wsrep::xid xid; };
    struct CommitRec { wsrep::id sid; uint64_t tid; std::string data; seq_t seqno; const char* via; };
    struct FragOp { bool ins; Frag f; };

    // A DBMS transaction: uncommitted rows, row locks, fragment table changes.
    struct Owner
    {
        Node* node = nullptr;
        bool bf = false;
        bool lasting = false; // streaming applier, holds locks between write sets
        seq_t seqno = -1;
        Client* client = nullptr; // local session, can be a victim
        Hps* hps = nullptr;
        bool active = false;
        bool mdl = false;         // holds metadata locks
        std::string pending;
        std::map<int, std::string> overlay;
        std::set<int> locks;
        std::vector<FragOp> fops;
        long epoch = 0;           // incremented when locks are released
    };

    enum Ack { a_none, a_ok, a_err, a_client_rollback, a_unknown, a_xa_moved };
    struct Rec
    {
        wsrep::id sid; uint64_t tid = 0; Client* client = nullptr; Node* node = nullptr;
        std::string data, streamed; std::set<int> keys, frag_keys;
        int db_commits = 0; bool bf_accepted = false, to_abort = false, to_race = false, bf_idle = false;
        Ack ack = a_none; bool ended = false; bool empty = true;
        int cleanups = 0, frags_reached = 0, frags_ok = 0, rb_first = 0, releases = 0, replays = 0;
        bool started_replicated = false;
        bool xa = false, xa_prepared = false, xa_moved = false, detached = false; wsrep::xid xid; int decisions = 0;
        bool xa_decided_commit = false, xa_decided_rollback = false;
        seq_t commit_seqno = -1; // position handed out to the commit write set
        bool by_xid = false;
        bool connection_lost = false;
        // failure causes seen during the transaction (C05)
        struct Cause { std::string what; int error; int status; };
        std::vector<Cause> causes;
        bool server_disconnected = false;
        std::string committing_data, acked_data;
        bool disturbed = false, empty_commit = false, client_rollback = false, not_xa_rb = false, by_xid_committed = false, replay_conflict = false, no_release = false, xa_bf = false, xa_acked = false, own_xid_commit = false;
        void cause(const char* what, int error, int status) { Cause c; c.what = what; c.error = error; c.status = status; causes.push_back(c); }
        bool commit_passed() const;
        bool xa_commit_asked = false, asked_allowed = false;
        bool has_cause(const char* w) const { for (auto& c : causes) if (c.what == w) return true; return false; }
        bool keys_dangling() const { return keys.size() > 0; }
        seq_t decision_seqno() const;
    };

    struct Event
    {
        enum Kind { WS, TOI, VIEW } kind = WS;
        seq_t seqno = 0; int flags = 0; wsrep::id sid; uint64_t tid = 0, cid = 0;
        std::string data; std::set<int> ex, sh; seq_t last_seen = 0, depends = 0;
        bool cert_ok = true, as_rollback = false, self_apply = false; Node* origin = nullptr; bool all_keys = false;
        std::vector<wsrep::id> members; std::string why; bool equal = false;
        std::set<int> skip; std::set<std::pair<std::string, uint64_t> > survive;
        bool members_has(const wsrep::id& i) const { for (auto& m : members) if (m == i) return true; return false; }
    };

    struct Cfg
    {
        int nodes = 1; int clients = 2; int trxs = 2; int rows = 4; bool ghost = false; bool faults = false;
        bool crash = false; bool streaming = false; bool xa = false; bool toi = false; bool spurious = false;
        bool sync_rollback = true; bool twopc = false; int switch_rate = 3;
        bool blips = false; bool disconnects = false; bool keep = false; bool close_mid = false; bool kills = false;
        int disruptions = 0; bool partitions = false; int ghost_ops = 0; int killer_ops = 0; bool disconnect = false; bool xa_kills = false;
    };

    struct Group
    {
        int killer_aim = -1; Node* killer_node = nullptr;
        Cfg cfg;
        wsrep::id uuid;
        std::vector<Event*> log; // log[i].seqno == i + 1
        struct Ent { seq_t s = 0; wsrep::id sid; uint64_t tid = 0; };
        std::map<int, Ent> ex, sh; seq_t last_toi = 0, last_unsafe = 0;
        struct SR { seq_t last = 0; wsrep::id sid; std::set<int> keys; bool prepared = false; };
        std::map<std::pair<std::string, uint64_t>, SR> sr; std::map<std::pair<std::string, uint64_t>, seq_t> closed; seq_t last_view = 0; std::vector<wsrep::id> prev_members; seq_t init_view = 0; unsigned disrupted = 0; bool calm = false; std::vector<wsrep::id> init_members;
        std::vector<Rec*> rec_list; uint64_t applier_handle = 1;
        std::vector<Node*> nodes;           // current incarnations
        std::vector<wsrep::id> ghosts;
        std::vector<wsrep::id> members;
        std::map<std::pair<std::string, uint64_t>, Rec*> recs;
        std::map<std::string, int> fault_rate; bool faults_on = true;
        uint64_t next_tid = 1, next_cid = 1; int next_inc = 1; int next_val = 1;
        bool primary = true;
        bool stopping = false;
        int clients_running = 0;
        seq_t last() const { return (seq_t)log.size(); }
        Event& ev(seq_t s) { return *log[(size_t)s - 1]; }
        seq_t order(Event* e);
        bool fault(const char* what);
        std::map<uint64_t, Rec*> tids;
        Rec* rec(const wsrep::id& sid, uint64_t tid);
        Rec* by_tid(uint64_t tid);
    };
    extern Group* g;

    // Provider side of one local transaction
    struct H
    {
        enum Phase { Exec, Replicating, Certified, MustReplay, Aborting, Replaying, Done } phase = Exec;
        uint64_t tid = 0; Rec* rec = nullptr; bool aborted = false; seq_t seqno = -1; bool is_frag = false;
        bool entered = false, left = false; std::set<int> ex, sh; std::string data;
        bool must_leave = false, rel_failed = false;
    };

    struct Prov : public vf::FakeProvider
    {
        Node& n; std::map<uint64_t, H*> hs; seq_t last_left = 0; std::set<seq_t> cancel;
        std::set<seq_t> entered; seq_t inside = -1;
        struct Pend { uint64_t tid = 0; int fiber = 0; seq_t failed = 0, stamp = 0; };
        std::deque<Pend> rbq; std::vector<Pend> limbo; std::set<uint64_t> rb_seen; seq_t stamp = 0;
        std::map<int, int> verdict; std::set<uint64_t> released; bool connected = false;
        Prov(wsrep::server_state& s, Node& nn) : vf::FakeProvider(s), n(nn) { }
        H* use(const wsrep::ws_handle&, const char* what);
        void cancel_pos(seq_t);
        void promote_later(int) { }
        H* find(uint64_t tid) { auto i = hs.find(tid); return i == hs.end() ? nullptr : i->second; }
        void advance();
        void finish(seq_t s);
        int start_transaction(wsrep::ws_handle&) override;
        S assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override;
        int append_key(wsrep::ws_handle&, const wsrep::key&) override;
        S append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override;
        S certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override;
        S bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override;
        S rollback(wsrep::transaction_id) override;
        S commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        int release(wsrep::ws_handle&) override;
        S replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override;
        S enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override;
        S leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        void promote(int fiber);
    };

    struct CService : public wsrep::client_service
    {
        Client* c = nullptr;
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override;
        void reset_globals() override;
        void store_globals() override;
        int prepare_data_for_replication() override;
        void cleanup_transaction() override;
        bool statement_allowed_for_streaming() const override;
        size_t bytes_generated() const override;
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override;
        int remove_fragments() override;
        int bf_rollback() override;
        void emergency_shutdown() override;
        void will_replay() override;
        void signal_replayed() override;
        PS replay() override;
        PS replay_unordered() override;
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) override;
        PS commit_by_xid() override;
        bool is_explicit_xa() override;
        bool is_prepared_xa() override;
        bool is_xa_rollback() override;
        void debug_sync(const char*) override;
        void debug_crash(const char*) override;
        void notify_state_change() override;
    };

    struct ClientParts
    {
        vf::Mutex mx; vf::Cond cv; CService svc;
        ClientParts() : mx("client"), cv("client") { }
    };

    struct Client : public ClientParts, public wsrep::client_state
    {
        Node& n; Owner own; Rec* rec = nullptr;
        enum { x_none, x_active, x_prepared, x_rollback_only } xa = x_none; bool xa_rollback_stmt = false;
        bool killed = false;
        int ann_t = 0, ann_c = 0, ann_m = 0; uint64_t ann_tid = (uint64_t)-1;
        int will_replays = 0, replayed = 0;
        // streaming model (C06)
        int unit = 0; size_t fsize = 0, counter = 0; size_t logpos = 0;
        int frag_calls = 0;
        wsrep::gtid expect_lw; seq_t last_pos = -1;
        bool is_hp; bool open_ = false; bool kept_error = false; bool in_call = false;
        bool dbms_error = false;
        std::string name;
        uint64_t own_tid = 0; bool want_implicit = false; seq_t pos_given = -1, api_stamp = 0; bool frag_expected = false, preparing = false;
        size_t stmt_certified = 0; std::string storage_pending; bool in_commitish = false; int fatal_faults = 0, emergencies = 0;
        wsrep::id by_sid; uint64_t by_tid = 0; bool by_commit = false; int bf_in_progress = 0; bool mode_call = false; Hps* my_hps = nullptr;
        bool detaching = false, want_setting = false; int seq_cb_called = 0;
        void notified(); void unlocked(const char*); void transaction_implicit(bool); bool doomed() const;
        int api_fiber = -1; void linger(int aim); bool bytes_lost = false, api_refused = false, empty_frag = false, bytes_asked = false, asked_replayers = false, killed_before = false; bool replay_over = false; bool unprovoked(Rec*); void check_fragment(const char*, int, int); bool expect_row(); bool expect_stmt(); void after_commit_failure(); void went_on(const char*); void api_rollback();
        int statement(std::function<void()>); void finish_rec(Rec*, int, int); int command(std::function<void()>, bool keep);
        int streaming_setting(); void write_some(int, int); void one_transaction(); void xa_end(); void xa_prepare(); bool by_xid_some(); bool own_rollback() const;
        bool prepared_like() const; void xa_replay_idle();
        Client(Node& nn, CM mode, const std::string& nm);
        const char* cur_api = "";
        template <class Fn> int api(const char* what, Fn fn);
        void post(const char* what);
        // DBMS level actions
        void session();
        void db_rollback();
        bool do_rollback();            // hooks + DBMS rollback
        bool write_row(int k);
        void start_trx(bool xa_trx);
        int do_commit();
        void run_toi();
        void think(uint32_t n, uint32_t of);
    };

    struct Hps : public wsrep::high_priority_service
    {
        Node& n; Client* hc; Owner own; bool replaying; Client* orig = nullptr; bool streaming = false; bool dead = false;
        bool standin = false, in_use = false; long adopted = -1; std::string desc() const; void ck(const char*);
        Hps(Node& nn, wsrep::server_state& ss, Client* c, bool rep);
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int next_fragment(const wsrep::ws_meta&) override;
        const wsrep::transaction& transaction() const override { return hc->transaction(); }
        int adopt_transaction(const wsrep::transaction&) override;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&, const wsrep::xid&) override;
        int remove_fragments(const wsrep::ws_meta&) override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override { return 0; }
        void after_apply() override;
        void store_globals() override;
        void reset_globals() override;
        void switch_execution_context(wsrep::high_priority_service&) override { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) override;
        void adopt_apply_error(wsrep::mutable_buffer& e) override { hc->adopt_apply_error(e); }
        bool is_replaying() const override { return replaying; }
        void debug_crash(const char*) override { vf::yield(); }
        void apply_data(const std::string&);
        void shutdown();
    };

    struct Storage : public wsrep::storage_service
    {
        Node& n; Client* hc; Owner own; bool globals; Client* user; wsrep::id adopted_sid; uint64_t adopted_tid = 0; bool dead = false;
        Storage(Node& nn, Client* u);
        int start_transaction(const wsrep::ws_handle&) override;
        void adopt_transaction(const wsrep::transaction&) override;
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int, const wsrep::const_buffer&, const wsrep::xid&) override;
        int update_fragment_meta(const wsrep::ws_meta&) override;
        int remove_fragments() override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        void store_globals() override;
        void reset_globals() override;
        bool requires_globals() const override { return globals; }
        void ck(const char*);
    };

    struct SService : public wsrep::server_service
    {
        Node* n = nullptr;
        wsrep::storage_service* storage_service(wsrep::client_service&) override;
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override;
        void release_storage_service(wsrep::storage_service*) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override;
        void release_high_priority_service(wsrep::high_priority_service*) override;
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) override;
        void bootstrap() override;
        void log_message(enum wsrep::log::level, const char*) override { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override;
        void recover_streaming_appliers(wsrep::client_service&) override;
        void recover_streaming_appliers(wsrep::high_priority_service&) override;
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override;
        wsrep::gtid get_position(wsrep::client_service&) override;
        void set_position(wsrep::client_service&, const wsrep::gtid&) override;
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) override;
        bool sst_before_init() const override { return false; }
        std::string sst_request() override { return "sst"; }
        int start_sst(const std::string&, const wsrep::gtid&, bool) override { return 0; }
        int wait_committing_transactions(int) override { return 0; }
        void debug_sync(const char*) override;
        void recover();
    };

    struct NodeParts { vf::Mutex smx; vf::Cond scv; SService svc; NodeParts() : smx("server"), scv("server") { } };
    struct SState : public wsrep::server_state
    {
        SState(NodeParts& p, const std::string& name, bool sync)
            : wsrep::server_state(p.smx, p.scv, p.svc, nullptr, name, "", "", "", wsrep::gtid::undefined(), 1,
                                  sync ? wsrep::server_state::rm_sync : wsrep::server_state::rm_async) { }
        bool mutex_mine(const vf::Mutex& m) const;
    };

    struct Node : public NodeParts
    {
        int idx; int inc; std::string name; wsrep::id sid; SState ss; Prov* prov = nullptr; int group;
        // durable
        std::vector<CommitRec> log; std::map<int, std::string> rows; std::vector<Frag> frags; seq_t position = 0;
        wsrep::view view;
        // volatile
        std::map<int, Owner*> locks; std::map<int, const void*> ctx; std::vector<Client*> clients;
        std::vector<Hps*> sas; // live streaming appliers
        std::deque<Client*> rbq; int rb_busy = 0; int replayers = 0;
        seq_t next = 1; Hps* main = nullptr; bool up = false; bool prim = false; bool partitioned = false; int in_view = -1; long adoptions = 0; bool nonprim_pending = false;
        std::vector<vf::Fiber*> sessions; bool down = false; bool applier_idle = true;
        int live_storage = 0, live_hps = 0; seq_t joined_pos = 0; seq_t join_seqno = 0; int bootstraps = 0; int recoveries = 0;
        seq_t busy_seqno = -1, busy_last = -1, toi_active = -1, limit = 1LL << 60, sync_after = 0; std::vector<seq_t> toi_log; std::set<Rec*> xid_busy;
        std::deque<std::function<void()> > ctl; bool paused = false; long applied_count = 0;
        bool can_replicate() const; Client* client(uint64_t cid); Rec* new_rec(Client*); void drop_client(Client*); bool decided(Rec*); bool has_sa(Rec*); void do_sync();
        Node(int i, int incarnation, bool sync);
        Hps* make_hps(bool replaying, Client* orig, bool streaming);
        void applier();
        void rollbacker();
        bool lock_bf(Owner& o, int k);
        void known_fragments(const wsrep::transaction& t, const wsrep::id& sid, uint64_t tid);
        void unlock_all(Owner& o);
        void db_commit(Owner& o, const wsrep::id& sid, uint64_t tid, seq_t seqno, const char* via);
        void apply_fops(Owner& o);
        std::string value(Owner& o, int k);
        bool bf(Client* victim, seq_t seqno, bool to);
        void toi(seq_t seqno, const std::string& data, Client* self);
        void set_ctx(const void* p) { ctx[vf::current_id()] = p; }
        const void* get_ctx() { auto i = ctx.find(vf::current_id()); return i == ctx.end() ? nullptr : i->second; }
        void deliver_view(Event& e);
        std::string fragdump() const;
    };
    std::string ids(const wsrep::id&);
    struct Op { int k; std::string from, to; };
    std::vector<Op> parse(const std::string&);
    wsrep::view make_view(seq_t s, enum wsrep::view::status st, const std::vector<wsrep::id>& m, const wsrep::id& own);
    void run_case(const Cfg&);
    void start_node(Node*, bool first);
    void start_clients(Node*);
    void ghost_run();
    void control();
    void final_checks();
    void drain();
}
#endif
