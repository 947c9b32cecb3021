#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
T='src/transaction.cpp'; C='src/client_state.cpp'; S='src/server_state.cpp'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title)); P.append(d)

p('C01','Every ordered write set passes the commit order exactly once',
  'A local transaction enters the provider\'s commit order only after certification succeeded (or, for a transaction that ended rolled back but had been given a position, only after its rollback), and for every position the provider handed out to it the commit order is entered once and left once, with that position. A transaction that was never given a position never touches the commit order, and a transaction is made committable only while it is inside it. The position of a rolled back transaction is recorded with the DBMS before its commit order is left.',
  ['histories','schedules','fault_sequences'],
  'For every sequence of client operations, every provider status returned at each call, every point at which a higher-priority abort arrives.',
  'Unit tests drive about a hundred fixed paths with one abort point each; the rule must hold for every combination of provider results, abort points, one/two-phase, streaming and XA.',
  [T],[('commit order enter/leave','transaction::before_commit, ordered_commit'),('late release of the order after rollback','transaction::release_commit_order, after_statement'),('replay','transaction::replay')],
  ['provider::commit_order_enter','provider::commit_order_leave','provider::certify'])
p('C02','The client is told the truth about its transaction',
  'When the statement that ends a transaction finishes, the session shows success if and only if the changes were committed exactly once, either directly or by replay; in every other ending none of the changes remain committed and the session carries an error or the client itself asked for the rollback. After either ending the DBMS has been told to clean up, the session has no active transaction and a following transaction starts from a clean slate.',
  ['histories','schedules','fault_sequences'],
  'For every client history, abort point, provider status and local storage failure.',
  'Tests sample single transactions; the claim is about all interleavings of aborts, failures and follow-up transactions in one session.',
  [T,C],[('error override','client_state::override_error'),('after_statement resolution','transaction::after_statement'),('cleanup','transaction::cleanup')],
  ['client_state::current_error','client_state::after_statement','DBMS commit/rollback callbacks'])
p('C03','Higher-priority abort: accepted victims never commit what they executed',
  'A higher-priority abort of a transaction is accepted exactly when the transaction is active, has not passed its point of no return in the commit order, is not already ending, and the provider agrees. Once accepted, the victim\'s own execution is rolled back, and it ends either with an error at the client or, if the group had already ordered it, by being replayed; a refused abort changes nothing for the victim.',
  ['schedules','histories'],
  'For every point of the transaction life cycle (including inside provider, storage and DBMS callbacks) at which the abort can arrive, once or repeatedly, for local, streaming, XA and two-phase transactions.',
  'The race exists only between threads; tests place the abort at a few hand-picked synchronisation points.',
  [T],[('acceptance rule','transaction::bf_abort'),('immutability after commit order','transaction::before_commit'),('must_abort handling','before_prepare, after_prepare, before_commit, before_rollback, after_statement')],
  ['client_state::bf_abort result','transaction state','client_state::current_error'])
p('C04','Transactions, sessions and servers only take allowed state steps',
  'In every history each transaction, client session and server moves only along the steps of its documented state diagram; committed and aborted are final for a transaction until a new one starts, a transaction past commit ordering can only become committed, and every step of a transaction or session is announced to the DBMS. No public operation used within its contract trips an internal consistency check, dead-locks on its own locks, or returns with a lock held.',
  ['histories','schedules','fault_sequences'],
  'For every sequence of public operations within the DBMS contract, with aborts and provider failures at any callback.',
  'The transition tables are checked only on the edges the tests happen to take; double transitions need an abort to coincide with a specific failure.',
  [T,C,S],[('transaction state table','transaction::state'),('client state and mode tables','client_state::state, client_state::mode'),('server state table','server_state::state')],
  ['client_service::notify_state_change','server_service::log_state_change','transaction().state()'])
p('C05','Every certification and commit failure yields its documented client error',
  'For each status the provider can return from certifying a commit or a fragment, and for each local failure (data preparation, fragment storage, interruption, removal of fragments), the client ends with the error kind documented for it: conflicts give a deadlock error, oversize data a size error or commit error, interruption an interrupted error, storage failure an append error, provider and connection failures a commit error that keeps the provider status; only fatal provider failures ask for an emergency shutdown. A session that was interrupted before it began to commit certifies nothing. An operation of a transaction to which none of this and no abort happened does not fail, and rolling back never fails. A step towards commit or XA prepare that succeeds leaves no error and has not passed over a failed one, and the DBMS has been asked whether the last statement of a streaming transaction allows it. A certification-time abort of an already ordered transaction gives no error if its replay succeeds.',
  ['inputs','fault_sequences','histories'],
  'For all provider statuses and local failures at every failure position, with and without a concurrent abort.',
  'Tests inject one status on one path each and never combine failures with aborts or streaming position.',
  [T,C],[('status to error mapping','transaction::certify_commit, certify_fragment'),('interruption','transaction::abort_or_interrupt')],
  ['client_state::current_error','client_state::current_error_status','client_service::emergency_shutdown'])
p('C06','Streaming fragments are cut by the rule and carry exactly the written data',
  'With streaming enabled a fragment is replicated exactly when the configured number of bytes, rows or statements since the previous fragment is reached and there is unreplicated data, and never otherwise; the fragments of a transaction concatenated in order followed by the commit write set carry every generated byte once. The first replicated write set of a transaction and no other is marked as its start, the last as its commit, and the commit (or XA prepare) of a streamed transaction repeats the keys of all its fragments as shared keys and is marked unsafe for parallel applying.',
  ['inputs','histories','configurations'],
  'For every fragment unit and size, every sequence of row and statement sizes (including empty ones), and changes of the streaming setting between transactions.',
  'Tests use sizes 1 to 2 with one-byte rows; the byte accounting is never checked against content.',
  [T,'src/streaming_context.cpp',C,'src/sr_key_set.cpp'],[('fragment threshold','transaction::streaming_step'),('fragment certification','transaction::certify_fragment'),('keys for commit','transaction::append_sr_keys_for_commit, sr_key_set')],
  ['provider::append_data','provider::append_key','provider::certify flags'])
p('C07','A rolled-back streaming transaction is cleaned up in the group exactly once',
  'When a local streaming transaction of which at least one fragment may have reached the group ends by rollback for any reason other than an abort in total order, exactly one rollback message for it is sent or queued, and a local stand-in applier owning its fragments is registered before that message is issued. A committed transaction, one that never replicated a fragment, or one aborted in total order sends none.',
  ['histories','schedules','fault_sequences'],
  'For voluntary rollbacks, aborts at any point, certification or storage failures of any fragment, repeated and concurrent aborts, and session close.',
  'Tests count rollback fragments on a few single-threaded paths.',
  [T,S],[('once-only streaming rollback','transaction::streaming_rollback'),('conversion to applier','server_state::convert_streaming_client_to_applier'),('total order abort','transaction::total_order_bf_abort')],
  ['provider::rollback','server_state::find_streaming_applier'])
p('C08','The fragment store holds exactly the live fragments of streaming transactions',
  'Every replicated fragment is written to the fragment store before it is certified and becomes durable under the position certification gave it, or the store operation is rolled back; the fragments of a transaction are removed when it commits, when it is aborted in total order, or when its rollback is processed, and not before; the transaction, and whoever replays it or cleans up after it, knows every stored fragment. The storage and applier objects handed out by the DBMS are each returned exactly once and the caller\'s thread context is restored after each use.',
  ['histories','fault_sequences','schedules'],
  'For every history of streaming transactions with storage, certification and removal failures injected at any step.',
  'The test storage service keeps no content, so no test can see a lost, duplicated or stale fragment.',
  [T,S],[('append before certify','transaction::certify_fragment'),('removal','before_prepare, remove_fragments_in_storage_service_scope, replay, server_state apply paths'),('scoped services','scoped_storage_service, high_priority_switch')],
  ['storage_service callbacks','server_service::release_storage_service','client_service::store_globals'])
p('C09','Undelivered rollback messages are resent first, in order, once each',
  'Rollback messages that could not be sent are kept and are resent in their original order before the node certifies any further commit or fragment and whenever it becomes synced; each is delivered exactly once, a failed attempt keeps that message and all later ones queued, and a transaction that would certify while the queue cannot be flushed is aborted instead (except the commit of a prepared XA transaction).',
  ['histories','fault_sequences'],
  'For every sequence of failing and succeeding rollback sends interleaved with commits, fragments and sync events.',
  'No test exercises the queue with more than one entry or with a failure in the middle.',
  [S,T],[('queue','server_state::queue_rollback_event, send_pending_rollback_events'),('flush before certification','transaction::certify_commit, certify_fragment'),('flush on sync','server_state::on_sync')],
  ['provider::rollback','provider::certify'])
p('C10','Replay commits the ordered transaction once or reports its failure',
  'A transaction aborted after it was ordered in the group is replayed: replay starts only after its local execution was rolled back, happens once, and on success leaves it committed at its original position with no client error; if replay finds that certification failed the client gets a deadlock error and nothing is committed. A transaction waits for pending replays before it certifies; threads waiting for replayers are told before and after every replay, and the provider handle is released in the end.',
  ['schedules','histories','fault_sequences'],
  'For aborts at every point between ordering and commit, one- and two-phase, streaming or not, with every replay result.',
  'Tests replay with a provider that does nothing but return a code, at a few abort points.',
  [T],[('replay','transaction::replay, clone_for_replay'),('must_replay decision','certify_commit, after_prepare, before_commit, before_rollback')],
  ['client_service::replay, will_replay, signal_replayed','provider::replay'])
p('C11','A prepared XA transaction survives until it is explicitly decided',
  'Once XA prepare succeeded, the transaction is never rolled back by an abort, a failing or interrupted commit attempt, a membership change or the end of its session: it is handed to a stand-in applier or stays prepared, and it remains committable and rollbackable by its identifier. Commit and rollback by identifier replicate exactly one decision for the original transaction, and prepare itself replicates one final fragment marked as prepare.',
  ['histories','schedules','fault_sequences'],
  'For every XA history (prepare, detach, abort while idle or executing, commit, rollback, by-identifier decisions) with provider failures at any point.',
  'Tests cover five fixed XA histories with no failures.',
  [T,C,S],[('prepare','transaction::before_prepare/after_prepare'),('detach and replay','transaction::xa_detach, xa_replay, xa_replay_commit'),('decision by xid','transaction::commit_or_rollback_by_xid')],
  ['transaction state','server_state::find_streaming_applier(xid)','provider::certify flags'])
p('C12','Provider handles are released once, after their last use',
  'Every transaction started by a local client gives its provider handle back exactly once when it ends, whether committed, rolled back, replayed or detached, and no provider call uses the handle afterwards; a successfully replicated fragment lets the provider move on without ending the transaction, a failed one does not; decisions by XA identifier use no handle of their own. No handle, streaming registration, key or flag leaks into the next transaction of the session.',
  ['histories','fault_sequences'],
  'For every ending of every transaction in multi-transaction sessions.',
  'Mock release in tests only returns a code and is not tied to a handle.',
  [T],[('release','transaction::after_commit, after_statement, replay, xa paths, certify_fragment'),('cleanup','transaction::cleanup')],
  ['provider::release','provider calls carrying a handle'])
p('C13','Aborting an idle session is synchronised with its next command',
  'If a transaction is aborted while its session is idle and the server rolls back in the background, the session\'s next command or close waits until that rollback has completed and then reports the deadlock error (immediately, or with the following command when the error is to be kept); with foreground rollback the next command performs the rollback itself. The error stays visible until a result has been delivered and is cleared for the next command.',
  ['schedules','histories'],
  'For every interleaving of the session thread, the aborting thread and the background rollbacker, in both rollback modes and with commands that keep errors.',
  'Tests run the rollbacker inline on one thread, so waiting, wake-ups and ownership are never exercised.',
  [C,T],[('rollbacker hand-off','transaction::bf_abort, client_state::sync_rollback_complete'),('waiting','do_wait_rollback_complete_and_acquire_ownership, close'),('error retention','before_command, after_command_before_result, after_command_after_result')],
  ['client_state::before_command result','client_state::current_error'])
p('C14','Session positions: last written and sync-wait positions are exact',
  'A session\'s last written position is exactly the position of the last transaction whose commit, or total-order operation, of that session was given one (positions of streaming fragments, of non-blocking phases and of decisions by XA identifier do not count), and never goes backwards; it is undefined for a newly opened session. A successful causal wait makes its position visible for the rest of the command only, and a failed one reports not-supported or timeout and exposes no position.',
  ['histories','fault_sequences'],
  'For every mix of commits, rollbacks with a position, replays, total-order operations and causal waits in one or several sessions.',
  'Tests check one value after one commit.',
  [C,T],[('update','client_state::update_last_written_gtid, transaction::cleanup, leave_toi_common'),('causal read','client_state::sync_wait')],
  ['client_state::last_written_gtid','client_state::sync_wait_gtid','client_state::current_error'])
p('C15','Total order isolation is entered once, retried by rule and always left',
  'Entering total order isolation retries only after a certification or connection failure and only while a deadline is given, not yet passed and the client is not interrupted; each attempt that was given a position but failed is left before the next one. On success the session is in isolation mode with that position until it leaves exactly once and returns to its previous mode; on failure it stays in its mode with a deadlock, timeout or commit error according to the last result.',
  ['fault_sequences','inputs','histories'],
  'For every sequence of provider results, positions assigned to failed attempts, deadlines and interruptions.',
  'Tests do one attempt with success or one failure code.',
  [C],[('retry loop','client_state::poll_enter_toi'),('enter/leave','enter_toi_local, leave_toi_local, enter_toi_mode, leave_toi_mode')],
  ['provider::enter_toi/leave_toi','client_state::mode, in_toi, toi_meta, current_error'])
p('C16','Non-blocking operations pair their two phases',
  'A non-blocking operation begins with a start-only total-order message and ends with a commit-only one that refers to the position of its beginning; between the phases the session is in non-blocking mode but not in isolation. A failed first phase leaves the session in its normal mode; a failed or interrupted second phase returns it to normal mode with an error; each phase that got a position is left once.',
  ['fault_sequences','histories'],
  'For every sequence of provider results in both phases, local and applied operations, retries and deadlines.',
  'Tests run the success path and one failure per phase.',
  [C,S],[('phases','client_state::begin_nbo_phase_one ... end_nbo_phase_two'),('applied begin','client_state::enter_nbo_mode, server apply_toi')],
  ['provider::enter_toi/leave_toi arguments','client_state::mode, in_toi, current_error'])
p('C17','Desync and pause requests stay balanced',
  'Every successful desync of the provider is undone by exactly one resync and every successful pause by exactly one resume, also when rolling-upgrade or pause requests fail half-way or overlap, and a resync or resume is never sent for a request that did not succeed. At most one pause is in effect at a time, later pause requests wait for it and get their turn, and a schema change in rolling mode leaves the session in its previous mode.',
  ['schedules','fault_sequences','histories'],
  'For every interleaving of concurrent pause, desync and rolling schema change requests with failures at any provider call.',
  'Tests call each once with success; waiters and failure paths are never combined.',
  [S,C],[('counters','server_state::desync/resync/pause/resume'),('combined','desync_and_pause, resume_and_resync'),('RSU','client_state::begin_rsu, end_rsu')],
  ['provider::desync/resync/pause/resume call history'])
p('C18','Every applied write set is routed by its flags and consumes its order once',
  'A write set delivered for applying is started, continued, prepared, committed or rolled back according to its flags and the streaming transaction it belongs to, and with no failures its position is consumed exactly once: by committing, by storing a fragment, or by logging an empty event when nothing is known about its transaction. A streaming applier exists from the first fragment to the commit or rollback of its transaction and is then released once, with its fragments removed; fragments of different transactions and origins never mix.',
  ['histories','inputs'],
  'For every interleaving of write sets (single, fragments, prepare, commit, rollback, total-order and non-blocking) from several origins and transactions, including ones for unknown transactions.',
  'Tests apply a handful of isolated sequences from one origin.',
  [S],[('dispatch','apply_write_set, apply_toi in server_state.cpp'),('fragments','apply_fragment, commit_fragment, rollback_fragment'),('applier registry','start/stop/find_streaming_applier')],
  ['high_priority_service callbacks','provider::commit_order_enter/leave','server_state::find_streaming_applier'])
p('C19','Apply failures are rolled back, still ordered, and reported for voting',
  'When applying a write set or a total-order operation fails, its changes are rolled back, its position is still consumed with the error data passed to the provider, fragments of the failed streaming transaction are removed and its applier discarded. The result is the vote outcome when error data was produced, otherwise the ordering error if any, else the apply error; an error never turns into success without a vote.',
  ['fault_sequences','histories'],
  'For failures injected at any step of applying any kind of write set, with and without error data, and every vote result.',
  'Tests cover two failures with fixed results.',
  [S],[('error paths','apply_fragment, commit_fragment, apply_write_set, apply_toi'),('resolution','resolve_return_error')],
  ['on_apply result','high_priority_service::log_dummy_write_set / adopt_apply_error','provider::commit_order_leave error argument'])
p('C20','A server walks from connect to synced in order, in both initialisation orders',
  'For every legal sequence of connection, view, state transfer, initialisation and sync events the server reaches the documented states in order, whether storage is initialised before or after state transfer: it becomes joined only when it holds the full state up to its connection point and is initialised, synced only after the provider says so, returns to connected on loss of the primary component, and to disconnected at the end. Bootstrap is performed exactly once and only when requested.',
  ['histories','configurations','schedules'],
  'For both initialisation orders, with and without state transfer, repeated partitions, rejoins, donor periods and disconnects at any point.',
  'Tests cover about a dozen fixed event sequences.',
  [S],[('view handling','on_connect, on_view, on_primary_view, on_non_primary_view'),('sync','on_sync, initialized'),('donor','start_sst, sst_sent')],
  ['server_service::log_state_change','server_state::state','server_service::bootstrap'])
p('C21','Threads waiting for a server state always wake up',
  'A thread waiting for a server state returns successfully once the server takes that state, even if the state is immediately left again, and returns with an error when the server starts disconnecting or is disconnected, unless that is what it waits for (if both happen before the thread runs, either result is fine); a wait begun while the server is disconnected lasts until it takes the state in a later connection. State changes are delivered to waiters before the server moves on, and disconnecting is idempotent and ignores late events.',
  ['schedules'],
  'For every interleaving of several waiters with any sequence of state changes and disconnects.',
  'The existing tests have no concurrent waiter at all.',
  [S],[('waiting','server_state::wait_until_state, state_waiters_'),('hand-shake','server_state::state'),('disconnect','server_state::disconnect')],
  ['server_state::wait_until_state result'])
p('C22','State transfer is accepted only with a sane position and always answered',
  'After receiving a state transfer the server tells the provider exactly once: success with the position recovered from storage if the recovered view belongs to the same history and is not ahead of it, otherwise an error with an undefined position, also when the transfer or the following initialisation failed. A donor returns to joined whether or not sending succeeded, unless it lost the donor role meanwhile, and reports the result to the provider.',
  ['fault_sequences','histories','inputs'],
  'For every combination of transfer result, recovered position and view, initialisation order, initialisation failure and disconnect.',
  'Tests cover a few combinations with fixed positions.',
  [S],[('reception','server_state::sst_received'),('donor','start_sst, sst_sent, return_from_donor_state')],
  ['provider::sst_received / sst_sent arguments','return value','server_state::current_view'])
p('C23','Orphaned streaming transactions are closed by membership changes, others kept',
  'At each primary view exactly those streaming transactions are rolled back and their fragments removed whose origin is not a member, or all of them when the membership equals that of the previous primary view; prepared XA transactions and those of present members survive. Local streaming clients are aborted in total order in the same case, and the view is recorded after that clean-up.',
  ['histories','configurations'],
  'For every sequence of views (primary, non-primary, joins, leaves, equal membership) and any set of open streaming and XA transactions.',
  'Tests use one applier and two views.',
  [S,'src/view.cpp'],[('orphan closing','server_state::close_orphaned_sr_transactions'),('views','on_view, view::equal_membership')],
  ['high_priority_service callbacks','server_state::find_streaming_applier','server_service::log_view'])
p('C24','Disconnecting drops streaming appliers but keeps their fragments for recovery',
  'On disconnection from the group every streaming applier is rolled back and released without removing its stored fragments, and the server forgets its identity; after a later connection streaming transactions are recovered exactly once, before any view-based clean-up and before the state transfer is reported as received. A streaming client rolled back while disconnected creates no applier and stores nothing under an undefined identity.',
  ['histories','crash_points'],
  'For every history of connects, fragments, disconnects and reconnects with any set of open streaming transactions.',
  'Tests disconnect once with one applier.',
  [S,T],[('closing','close_transactions_at_disconnect, go_final'),('recovery','recover_streaming_appliers_if_not_recovered'),('disconnected conversion','convert_streaming_client_to_applier')],
  ['server_service::recover_streaming_appliers','high_priority_service callbacks'])
p('C25','All nodes converge to the same data with every acknowledged commit in it',
  'In a cluster running over a provider that totally orders and certifies write sets, after any history of concurrent client transactions, conflicts, aborts, replays, streaming transactions, total-order operations, node crashes and rejoins, all connected nodes hold identical data and identical fragment stores once idle. Every commit acknowledged to a client is applied exactly once everywhere in the same order, and no transaction reported as failed or never acknowledged leaves a partial effect anywhere.',
  ['schedules','crash_points','histories','fault_sequences'],
  'For every schedule of client, applier and rollbacker threads on several nodes, and a crash of a node at any point.',
  'The repository has no deterministic multi-node test; its simulator needs an external provider and is not run.',
  [T,C,S],[('whole commit, abort, replay, apply and streaming machinery','src/')],
  ['database content of every node','client results','fragment store content'])
p('C26','No schedule leaves a thread stuck',
  'When the provider, the DBMS callbacks and the clients keep making progress, every operation on a session or server finishes: no interleaving of client threads, appliers, aborters, rollbackers, view handling and disconnects ends with all threads waiting for each other. In particular an aborted victim always gives way to its aborter and every ordered write set lets its successors proceed.',
  ['schedules'],
  'For every schedule of the threads of a node or a small cluster.',
  'Liveness over schedules cannot be sampled by single-threaded tests.',
  [T,C,S],[('lock order and condition variables','streaming_rollback, close_orphaned_sr_transactions, wait_until_state, pause')],
  ['termination of every generated run under a scheduler that owns all locks and waits'])
p('C27','Identifiers and positions survive text conversion',
  'Writing any identifier, position or sequence number as text and reading it back gives the same value, text of a valid form is accepted and gives the value it denotes, and any other text is rejected with an error without reading or writing out of bounds. Equality, ordering and undefinedness of these values are consistent with each other.',
  ['inputs'],
  'For all 16-byte identifiers, all sequence numbers and arbitrary strings.',
  'Tests use a dozen fixed strings.',
  ['src/id.cpp','src/gtid.cpp','src/uuid.cpp','src/seqno.cpp','include/wsrep/id.hpp','include/wsrep/gtid.hpp','include/wsrep/seqno.hpp'],
  [('parsing and printing','id::id(string), operator<<, uuid_scan/uuid_print, gtid operator>>, scan_from_c_str, print_to_c_str')],['stream operators and C string helpers'])
p('C28','Views, XA identifiers, keys and buffers behave as values',
  'Two views have equal membership exactly when they contain the same members regardless of order, member lookup agrees with the member list, and a view is final exactly when it is non-primary without members and own index; XA identifiers compare by all parts and reject oversize parts. Key sets remember each distinct pair of leading key parts once, and buffers return exactly what was stored.',
  ['inputs'],
  'For all member lists, identifiers, key part contents and buffer operations.',
  'Tests compare a few hand-written values.',
  ['src/view.cpp','src/xid.cpp','src/key.cpp','src/sr_key_set.cpp','src/provider.cpp','include/wsrep/xid.hpp','include/wsrep/view.hpp','include/wsrep/buffer.hpp'],
  [('value types','view, xid, key, sr_key_set, mutable_buffer, const_buffer, flags and capability names')],['public accessors'])
p('C29','Provider options mirror what the provider accepted',
  'An option can be read under its name with dots replaced by underscores, setting it passes the real name and the exact value to the provider, and the stored value changes only if the provider accepted it; unknown options and duplicate definitions are refused and change nothing. Every defined option is visited exactly once when enumerating.',
  ['inputs','histories','fault_sequences'],
  'For all option names, types and values, and every sequence of definitions, sets and provider refusals.',
  'There is no test for provider options.',
  ['src/provider_options.cpp','include/wsrep/provider_options.hpp'],[('set','provider_options::set'),('define','provider_options::set_default')],
  ['provider::options(string)','provider_options::get_option, for_each'])
p('C30','The status report file is always complete and current',
  'At every moment the status file is either absent or one complete valid document describing the latest reported state, progress and at most the configured number of most recent distinct messages and events, in order, for any message content. A reader never sees a partial file, whatever write or rename failure occurs, and failed updates leave no temporary files behind.',
  ['inputs','histories','fault_sequences'],
  'For every sequence of reports with arbitrary message bytes and I/O failures.',
  'Tests write a few plain ASCII messages with no failures.',
  ['src/reporter.cpp','include/wsrep/reporter.hpp'],[('atomic replace','reporter::write_file'),('escaping and message lists','reporter helpers')],
  ['the file on disk'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
