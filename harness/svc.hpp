// Inert services; engines override what they observe.
#ifndef VF_SVC_HPP
#define VF_SVC_HPP
#include "core.hpp"
#include "fakeprov.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/view.hpp"
namespace vf
{
    struct NullServerService : public wsrep::server_service
    {
        wsrep::storage_service* storage_service(wsrep::client_service&) override { return nullptr; }
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override { return nullptr; }
        void release_storage_service(wsrep::storage_service*) override { }
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override { return nullptr; }
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override { return nullptr; }
        void release_high_priority_service(wsrep::high_priority_service*) override { }
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) override { }
        void bootstrap() override { }
        void log_message(enum wsrep::log::level, const char*) override { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override { }
        void recover_streaming_appliers(wsrep::client_service&) override { }
        void recover_streaming_appliers(wsrep::high_priority_service&) override { }
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override { return wsrep::view(); }
        wsrep::gtid get_position(wsrep::client_service&) override { return wsrep::gtid::undefined(); }
        void set_position(wsrep::client_service&, const wsrep::gtid&) override { }
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) override { }
        bool sst_before_init() const override { return false; }
        std::string sst_request() override { return ""; }
        int start_sst(const std::string&, const wsrep::gtid&, bool) override { return 0; }
        int wait_committing_transactions(int) override { return 0; }
        void debug_sync(const char*) override { }
    };
    struct NullClientService : public wsrep::client_service
    {
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override { return false; }
        void reset_globals() override { }
        void store_globals() override { }
        int prepare_data_for_replication() override { return 0; }
        void cleanup_transaction() override { }
        bool statement_allowed_for_streaming() const override { return true; }
        size_t bytes_generated() const override { return 0; }
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override { return 0; }
        int remove_fragments() override { return 0; }
        int bf_rollback() override { return 0; }
        void emergency_shutdown() override { }
        void will_replay() override { }
        void signal_replayed() override { }
        enum wsrep::provider::status replay() override { return wsrep::provider::success; }
        enum wsrep::provider::status replay_unordered() override { return wsrep::provider::success; }
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) override { }
        enum wsrep::provider::status commit_by_xid() override { return wsrep::provider::success; }
        bool is_explicit_xa() override { return false; }
        bool is_prepared_xa() override { return false; }
        bool is_xa_rollback() override { return false; }
        void debug_sync(const char*) override { }
        void debug_crash(const char*) override { }
        void notify_state_change() override { }
    };
    struct TestServerState : public wsrep::server_state
    {
        TestServerState(Mutex& m, Cond& c, wsrep::server_service& s, const std::string& name, bool sync = true,
                        const wsrep::gtid& pos = wsrep::gtid::undefined())
            : wsrep::server_state(m, c, s, nullptr, name, "", "", "", pos, 1,
                                  sync ? wsrep::server_state::rm_sync : wsrep::server_state::rm_async) { }
    };
    struct TestClientState : public wsrep::client_state
    {
        TestClientState(Mutex& m, Cond& c, wsrep::server_state& ss, wsrep::client_service& cs, uint64_t id, enum mode mode)
            : wsrep::client_state(m, c, ss, cs, wsrep::client_id(id), mode) { }
        using wsrep::client_state::adopt_transaction;
    };
}
#endif
