// Helpers of the demonstrations: scriptable provider on top of the mocks of the test suite
#ifndef KIT_HPP
#define KIT_HPP
#include <boost/test/unit_test.hpp>
#include <functional>
#include <thread>
#include <chrono>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#define private public
#define protected public
#include "mock_client_state.hpp"
#include "mock_server_state.hpp"
#undef private
#undef protected
typedef wsrep::provider P;
struct kprovider : wsrep::mock_provider
{
    kprovider(wsrep::server_state& s) : wsrep::mock_provider(s) {}
    std::function<enum P::status(wsrep::transaction_id)> on_rollback;
    std::function<enum P::status(wsrep::ws_handle&, int, wsrep::ws_meta&)> on_certify;
    std::function<enum P::status(const wsrep::ws_handle&)> on_enter;
    std::function<enum P::status(wsrep::ws_meta&)> on_toi;
    std::function<void(const wsrep::ws_meta&)> on_leave_toi;
    std::function<void()> on_release;
    std::function<void(const wsrep::mutable_buffer&)> on_order_leave;
    int commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) override { if (on_order_leave) on_order_leave(e); return wsrep::mock_provider::commit_order_leave(h, m, e); }
    std::function<enum P::status(const wsrep::ws_meta&)> leave_toi_status;
    std::function<std::pair<wsrep::gtid, enum P::status>()> on_causal;
    std::function<void(const wsrep::key&)> on_key;
    std::function<enum P::status(const wsrep::gtid&, int)> on_sst_received;
    int append_key(wsrep::ws_handle& h, const wsrep::key& key) override { if (on_key) on_key(key); return wsrep::mock_provider::append_key(h, key); }
    std::pair<wsrep::gtid, enum P::status> causal_read(int t) const override { if (on_causal) return on_causal(); return wsrep::mock_provider::causal_read(t); }
    enum P::status sst_received(const wsrep::gtid& g, int e) override { if (on_sst_received) return on_sst_received(g, e); return P::success; }
    std::function<int(const char*)> on_op; // desync resync pause resume
    enum P::status rollback(const wsrep::transaction_id t) override
    { if (on_rollback) { enum P::status s = on_rollback(t); if (s) return s; } return wsrep::mock_provider::rollback(t); }
    enum P::status certify(wsrep::client_id c, wsrep::ws_handle& h, int f, wsrep::ws_meta& m, const wsrep::provider::seq_cb* cb) override
    { if (on_certify) { enum P::status s = on_certify(h, f, m); if (s) return s; } return wsrep::mock_provider::certify(c, h, f, m, cb); }
    enum P::status commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    { if (on_enter) { enum P::status s = on_enter(h); if (s) return s; } return wsrep::mock_provider::commit_order_enter(h, m); }
    enum P::status enter_toi(wsrep::client_id c, const wsrep::key_array& k, const wsrep::const_buffer& b, wsrep::ws_meta& m, int f) override
    { if (on_toi) { enum P::status s = on_toi(m); if (s) return s; } return wsrep::mock_provider::enter_toi(c, k, b, m, f); }
    enum P::status leave_toi(wsrep::client_id c, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) override
    { if (on_leave_toi) on_leave_toi(m); if (leave_toi_status) { enum P::status s = leave_toi_status(m); if (s) return s; } return wsrep::mock_provider::leave_toi(c, m, e); }
    int release(wsrep::ws_handle& h) override { if (on_release) on_release(); return wsrep::mock_provider::release(h); }
    int op(const char* n) { return on_op ? on_op(n) : 0; }
    int desync() override { return op("desync"); }
    int resync() override { return op("resync"); }
    wsrep::seqno pause() override { return op("pause") ? wsrep::seqno::undefined() : wsrep::seqno(1); }
    int resume() override { return op("resume"); }
};
struct kserver : wsrep::mock_server_state
{
    kserver(wsrep::server_service& s, enum wsrep::server_state::rollback_mode m = wsrep::server_state::rm_sync)
        : wsrep::mock_server_state("s1", m, s)
    {
        unload_provider();
        set_provider_factory([this](wsrep::server_state&, const std::string&, const std::string&, const wsrep::provider::services&) {
            p = new kprovider(*this); provider_ = p; return std::unique_ptr<wsrep::provider>(p); });
        load_provider("mock", "");
    }
    kprovider* p;
};
struct kit
{
    kit(enum wsrep::server_state::rollback_mode m = wsrep::server_state::rm_sync) : ss(&sc), sc(ss, m), cc(sc, wsrep::client_id(1), wsrep::client_state::m_local), tc(cc.transaction())
    {
        sc.mock_connect();
        cc.open(cc.id());
        BOOST_REQUIRE(cc.before_command() == 0);
        BOOST_REQUIRE(cc.before_statement() == 0);
        p = sc.p;
    }
    // one row of a streaming transaction
    int row(size_t n = 1)
    {
        cc.bytes_generated_ += n;
        return static_cast<wsrep::client_state&>(cc).wsrep::client_state::after_row();
    }
    void next_statement()
    {
        cc.after_statement(); cc.after_command_before_result(); cc.after_command_after_result();
        BOOST_REQUIRE(cc.before_command() == 0);
        BOOST_REQUIRE(cc.before_statement() == 0);
    }
    wsrep::mock_server_service ss;
    kserver sc;
    wsrep::mock_client cc;
    const wsrep::transaction& tc;
    kprovider* p;
};
#endif
