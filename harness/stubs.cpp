// Parts of the library that need headers not present in this sandbox: the v26
// provider loader and the provider config service.
#include "wsrep_provider_v26.hpp"
#include "config_service_v1.hpp"
#include "vfstub.hpp"
namespace vf { std::function<int(wsrep::provider_options*)> config_feed; }
int wsrep::config_service_v1_fetch(wsrep::provider&, wsrep::provider_options* opts)
{
    return vf::config_feed ? vf::config_feed(opts) : 0;
}
extern "C" void vf_v26_unavailable() { abort(); }
typedef wsrep::wsrep_provider_v26 P;
typedef enum wsrep::provider::status S;
P::wsrep_provider_v26(wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
    : wsrep::provider(s), wsrep_(), services_enabled_() { throw wsrep::runtime_error("no provider loader"); }
P::~wsrep_provider_v26() { }
S P::connect(const std::string&, const std::string&, const std::string&, bool) { abort(); }
int P::disconnect() { abort(); }
int P::capabilities() const { abort(); }
int P::desync() { abort(); }
int P::resync() { abort(); }
wsrep::seqno P::pause() { abort(); }
int P::resume() { abort(); }
S P::run_applier(wsrep::high_priority_service*) { abort(); }
S P::assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) { abort(); }
int P::append_key(wsrep::ws_handle&, const wsrep::key&) { abort(); }
S P::append_data(wsrep::ws_handle&, const wsrep::const_buffer&) { abort(); }
S P::certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) { abort(); }
S P::bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) { abort(); }
S P::rollback(const wsrep::transaction_id) { abort(); }
S P::commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) { abort(); }
int P::commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) { abort(); }
int P::release(wsrep::ws_handle&) { abort(); }
S P::replay(const wsrep::ws_handle&, wsrep::high_priority_service*) { abort(); }
S P::enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) { abort(); }
S P::leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) { abort(); }
std::pair<wsrep::gtid, S> P::causal_read(int) const { abort(); }
S P::wait_for_gtid(const wsrep::gtid&, int) const { abort(); }
wsrep::gtid P::last_committed_gtid() const { abort(); }
S P::sst_sent(const wsrep::gtid&, int) { abort(); }
S P::sst_received(const wsrep::gtid&, int) { abort(); }
S P::enc_set_key(const wsrep::const_buffer&) { abort(); }
std::vector<wsrep::provider::status_variable> P::status() const { abort(); }
void P::reset_status() { abort(); }
std::string P::options() const { abort(); }
S P::options(const std::string&) { abort(); }
S P::set_node_isolation(enum node_isolation) { abort(); }
std::string P::name() const { abort(); }
std::string P::version() const { abort(); }
std::string P::vendor() const { abort(); }
void* P::native() const { abort(); }
