// Provider with inert defaults; engines override what they model.
#ifndef VF_FAKEPROV_HPP
#define VF_FAKEPROV_HPP
#include "wsrep/provider.hpp"
#include "wsrep/server_state.hpp"
namespace vf
{
    class FakeProvider : public wsrep::provider
    {
    public:
        typedef enum wsrep::provider::status S;
        explicit FakeProvider(wsrep::server_state& s) : wsrep::provider(s) { }
        S connect(const std::string&, const std::string&, const std::string&, bool) override { return success; }
        int disconnect() override { return 0; }
        int capabilities() const override { return 0; }
        int desync() override { return 0; }
        int resync() override { return 0; }
        wsrep::seqno pause() override { return wsrep::seqno(0); }
        int resume() override { return 0; }
        S run_applier(wsrep::high_priority_service*) override { return success; }
        int start_transaction(wsrep::ws_handle&) override { return 0; }
        S assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override { return success; }
        int append_key(wsrep::ws_handle&, const wsrep::key&) override { return 0; }
        S append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override { return success; }
        S certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override { return success; }
        S bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override { return success; }
        S rollback(wsrep::transaction_id) override { return success; }
        S commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return success; }
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return 0; }
        int release(wsrep::ws_handle&) override { return 0; }
        S replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override { return success; }
        S enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override { return success; }
        S leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return success; }
        std::pair<wsrep::gtid, S> causal_read(int) const override { return std::make_pair(wsrep::gtid::undefined(), error_not_implemented); }
        S wait_for_gtid(const wsrep::gtid&, int) const override { return success; }
        wsrep::gtid last_committed_gtid() const override { return wsrep::gtid::undefined(); }
        S sst_sent(const wsrep::gtid&, int) override { return success; }
        S sst_received(const wsrep::gtid&, int) override { return success; }
        S enc_set_key(const wsrep::const_buffer&) override { return success; }
        std::vector<status_variable> status() const override { return std::vector<status_variable>(); }
        void reset_status() override { }
        std::string options() const override { return ""; }
        S options(const std::string&) override { return success; }
        S set_node_isolation(enum node_isolation) override { return success; }
        std::string name() const override { return "fake"; }
        std::string version() const override { return "0"; }
        std::string vendor() const override { return "none"; }
        void* native() const override { return nullptr; }
    };
}
#endif
