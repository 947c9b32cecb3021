// Case generation, disruptions and end-of-history oracles of the simulated group.
#include "sim.hpp"
#include <algorithm>

namespace sim
{
    using namespace vf;
    static std::pair<std::string, uint64_t> key_of(const wsrep::id& s, uint64_t t) { return std::make_pair(ids(s), t); }

    // ---- ghost: a remote member we only see through its events ---------------
    static bool sr_conflict(const std::set<int>& ks, const wsrep::id& sid, uint64_t tid)
    {
        for (auto& i : g->sr)
        {
            if (i.first == key_of(sid, tid)) continue;
            for (int k : ks) if (i.second.keys.count(k)) return true;
        }
        return false;
    }
    static Event* ghost_ws(const wsrep::id& sid, uint64_t tid, int flags, bool data)
    {
        Event* e = new Event;
        e->sid = sid; e->tid = tid; e->flags = flags; e->cid = 7;
        if (data)
        {
            for (uint32_t i = 1 + range(0, 1); i; --i)
            {
                int k = (int)draw((uint32_t)g->cfg.rows);
                if (!e->ex.insert(k).second) continue;
                e->data += "W" + std::to_string(k) + ":*>" + std::to_string(g->next_val++) + ";";
            }
        }
        e->last_seen = g->last();
        // Rows of streaming transactions are locked everywhere: cannot have been written by the ghost
        if (sr_conflict(e->ex, sid, tid)) e->last_seen = 0;
        else if (chance(1, 8)) e->last_seen = g->last() - (seq_t)std::min<uint64_t>((uint64_t)g->last(), draw(4));
        return e;
    }
    void ghost_run()
    {
        struct Open { uint64_t tid; int frags; };
        std::vector<Open> open;
        const wsrep::id sid = g->ghosts[0];
        for (int n = 0; n < g->cfg.ghost_ops; ++n)
        {
            for (uint32_t i = range(0, 12); i; --i) yield();
            wait_for("ghost: primary", [] { return g->primary; });
            if (std::find(g->members.begin(), g->members.end(), sid) == g->members.end()) return;
            int extra = chance(1, 8) ? F::implicit_deps : 0;
            if (chance(1, 10)) extra |= F::pa_unsafe;
            switch (wpick({ 5, (uint32_t)(g->cfg.streaming ? 4 : 0), (uint32_t)(open.empty() ? 0 : 8), (uint32_t)(g->cfg.toi ? 2 : 0), 1 }))
            {
            case 0:
                g->order(ghost_ws(sid, g->next_tid++, F::start_transaction | F::commit | extra, true));
                break;
            case 1:
            {
                Open o; o.tid = g->next_tid++; o.frags = 0;
                Event* e = ghost_ws(sid, o.tid, F::start_transaction, true);
                g->order(e);
                if (e->cert_ok) { o.frags = 1; open.push_back(o); label("remote streaming transaction"); }
                break;
            }
            case 2:
            {
                size_t i = draw((uint32_t)open.size());
                Open o = open[i];
                if (!g->sr.count(key_of(sid, o.tid)))
                {
                    // closed by TOI: a late fragment fails
                    open.erase(open.begin() + (long)i);
                    if (chance(1, 2)) g->order(ghost_ws(sid, o.tid, 0, true));
                    break;
                }
                uint32_t what = wpick({ 3, 3, 2 });
                if (what == 0)
                {
                    Event* e = ghost_ws(sid, o.tid, 0, true);
                    g->order(e);
                    if (e->cert_ok) { ++open[i].frags; break; }
                    what = 2;
                }
                if (what == 1)
                {
                    Event* e = ghost_ws(sid, o.tid, F::commit | F::pa_unsafe, chance(1, 2));
                    g->order(e);
                    if (e->cert_ok) { open.erase(open.begin() + (long)i); break; }
                    what = 2;
                }
                open.erase(open.begin() + (long)i);
                for (uint32_t y = range(0, 6); y; --y) yield();
                Event* e = ghost_ws(sid, o.tid, F::rollback, false);
                g->order(e);
                label("remote streaming rollback");
                break;
            }
            case 3:
            {
                Event* e = new Event;
                e->kind = Event::TOI; e->sid = sid; e->cid = 7; e->flags = F::isolation | F::start_transaction | F::commit;
                int k = (int)draw((uint32_t)g->cfg.rows);
                e->data = "W" + std::to_string(k) + ":*>" + std::to_string(g->next_val++) + ";";
                label("remote TOI");
                g->order(e);
                break;
            }
            default:
                // rollback of something nobody knows
                g->order(ghost_ws(sid, g->next_tid++, F::rollback, false));
                break;
            }
        }
    }

    // ---- membership ------------------------------------------------------
    static Event* order_view()
    {
        Event* e = new Event;
        e->kind = Event::VIEW;
        e->members = g->members;
        g->order(e);
        return e;
    }
    static void member(const wsrep::id& id, bool in)
    {
        auto i = std::find(g->members.begin(), g->members.end(), id);
        if (in && i == g->members.end()) g->members.push_back(id);
        if (!in && i != g->members.end()) g->members.erase(i);
        std::sort(g->members.begin(), g->members.end());
    }
    static void on_applier(Node* n, std::function<void()> f)
    {
        std::shared_ptr<bool> done(new bool(false));
        n->ctl.push_back([=] { f(); *done = true; });
        wait_for("applier control", [=] { return *done || n->down; });
    }
    static seq_t recovered_position(Node* n)
    {
        seq_t p = n->position;
        if (n->log.size()) p = std::max(p, n->log.back().seqno);
        if (n->toi_log.size()) p = std::max(p, n->toi_log.back());
        for (auto& f : n->frags) p = std::max(p, f.seqno);
        return p;
    }
    static bool sessions_done(Node* n)
    {
        if (n->down) return true;
        for (auto f : n->sessions) if (!fiber_done(f)) return false;
        return true;
    }
    void start_clients(Node* n)
    {
        for (int i = 0; i < g->cfg.clients; ++i)
        {
            Client* c = new Client(*n, wsrep::client_state::m_local, strf("%s.c%d", n->name.c_str(), i));
            n->clients.push_back(c);
            n->sessions.push_back(spawn(c->name, [c, n] {
                wait_for("node up", [n] { return n->up && n->prim; });
                c->session(); }, false, n->group));
        }
    }
    void start_node(Node* n, bool first)
    {
        // Runs in a fibre
        n->ss.initialized();
        n->ss.connect("cluster", "", "", first && n->idx == 0);
        wsrep::view v = make_view(g->init_view, wsrep::view::primary, g->init_members, n->sid);
        n->ss.on_connect(v);
    }
    static void spawn_daemons(Node* n)
    {
        spawn(n->name + ".applier", [n] { n->applier(); }, true, n->group);
        // several, since rolling back one transaction may need another to be rolled back first
        for (int i = 0; i < 3; ++i) spawn(n->name + ".rollbacker" + std::to_string(i), [n] { n->rollbacker(); }, true, n->group);
    }
    static std::vector<Node*> live()
    {
        std::vector<Node*> r;
        for (auto n : g->nodes) if (!n->down && n->up) r.push_back(n);
        return r;
    }
    static void crash(Node* n)
    {
        trace("CRASH %s", n->name.c_str());
        label("node crash");
        n->down = true;
        n->up = false;
        kill_group(n->group);
        for (auto r : g->rec_list) if (r->node == n && !r->ended) { r->ended = true; r->ack = a_unknown; }
        member(n->sid, false);
        if (g->primary && g->members.size()) order_view();
    }
    static void join(Node* old, Node* donor)
    {
        Node* n = new Node(old->idx, g->next_inc++, g->cfg.sync_rollback);
        bool ist = chance(1, 2) || !donor;
        Node* src = ist ? old : donor;
        for (auto& x : g->nodes) if (x == old) x = n;
        label(ist ? "rejoin with own state" : "rejoin with state transfer");
        // Daemons in the group of the new incarnation
        struct Durable { std::vector<CommitRec> log; std::map<int, std::string> rows; std::vector<Frag> frags; seq_t pos; wsrep::view view; std::vector<seq_t> toi; };
        member(n->sid, true);
        order_view();
        const seq_t j = g->last();
        trace("JOIN %s at %lld from %s", n->name.c_str(), j, src->name.c_str());
        std::shared_ptr<bool> done(new bool(false));
        Fiber* f = spawn(n->name + ".join", [n, src, j, done, ist] {
            n->ss.initialized();
            n->ss.connect("cluster", "a", "", false);
            n->ss.on_connect(make_view(j, wsrep::view::primary, g->members, n->sid));
            for (uint32_t i = range(0, 6); i; --i) yield();
            n->ss.prepare_for_sst();
            for (uint32_t i = range(0, 6); i; --i) yield();
            // State snapshot
            n->position = recovered_position(src);
            n->log = src->log; n->rows = src->rows; n->view = src->view; n->toi_log = src->toi_log;
            for (auto& fr : src->frags)
            {
                // The DBMS does not hand over what a TOI within the snapshot has closed,
                // nor prepared transactions which it has committed (their fragments are
                // removed only after the commit, a crash in between leaves them)
                auto cl = g->closed.find(key_of(fr.sid, fr.tid));
                bool gone = cl != g->closed.end() && cl->second <= n->position;
                for (auto& c : n->log) gone = gone || (c.sid == fr.sid && c.tid == fr.tid);
                if (!gone) n->frags.push_back(fr);
            }
            // A prepare which was aborted at its origin after it had been ordered counts as prepared
            // until the rollback message is delivered: the origin does not hand over less than that
            for (auto& x : g->sr)
            {
                Rec* r = g->rec(x.second.sid, x.first.second);
                if (!x.second.prepared || x.second.sid != src->sid || !r || r->xa_prepared) continue;
                std::set<seq_t> have;
                for (auto& fr : n->frags) if (fr.sid == r->sid && fr.tid == r->tid) have.insert(fr.seqno);
                for (auto e : g->log)
                {
                    if (e->kind != Event::WS || !e->cert_ok || e->sid != r->sid || e->tid != r->tid || e->seqno > n->position || have.count(e->seqno)) continue;
                    Frag f; f.sid = e->sid; f.tid = e->tid; f.seqno = e->seqno; f.flags = e->flags; f.data = e->data; f.xid = r->xid;
                    n->frags.push_back(f);
                    label("given up prepare fragment handed over");
                }
            }
            n->joined_pos = n->position;
            n->prov->last_left = n->position;
            n->next = n->position + 1;
            trace("%s state at %lld view %lld", n->name.c_str(), n->position, n->view.state_id().seqno().get());
            trace("%s fragments %s", n->name.c_str(), n->fragdump().c_str());
            Client* c = new Client(*n, wsrep::client_state::m_local, n->name + ".sst");
            n->set_ctx(c);
            c->open(wsrep::client_id(g->next_cid++));
            c->before_command();
            int e = n->ss.sst_received(c->svc, 0);
            VCHECK("C22 C24", e == 0, "%s: sst_received failed", n->name.c_str());
            n->set_ctx(c);
            c->after_command_before_result();
            c->after_command_after_result();
            c->close();
            c->cleanup();
            n->set_ctx(nullptr);
            // C24: every streaming transaction of the fragment store is open again
            for (auto& fr : n->frags)
                VCHECK("C24 C23", n->ss.find_streaming_applier(fr.sid, wsrep::transaction_id(fr.tid)), "%s: streaming transaction %llu of the fragment store was not recovered", n->name.c_str(), (unsigned long long)fr.tid);
            n->sync_after = j;
            n->up = true;
            if (n->position >= j) n->prim = true;
            *done = true;
        }, false, n->group);
        (void)f;
        wait_for("join", [done, n] { return *done || n->down; });
        spawn_daemons(n);
        if (n->prim) on_applier(n, [n] { n->do_sync(); });
    }
    static void partition(Node* n)
    {
        trace("PARTITION %s", n->name.c_str());
        label("partition");
        n->partitioned = true;
        n->prim = false;
        n->limit = g->last();
        member(n->sid, false);
        if (g->members.size()) order_view();
    }
    static void heal(Node* n)
    {
        std::vector<wsrep::id> self(1, n->sid);
        seq_t lim = n->limit;
        wait_for("partitioned node drained", [n, lim] { return n->down || (n->applier_idle && n->ctl.empty() && n->next > lim); });
        on_applier(n, [n, self, lim] {
            n->ss.on_view(make_view(lim, wsrep::view::non_primary, self, n->sid), n->main);
        });
        for (uint32_t i = range(0, 20); i; --i) yield();
        trace("HEAL %s", n->name.c_str());
        member(n->sid, true);
        order_view();
        n->sync_after = g->last();
        n->limit = 1LL << 60;
        n->partitioned = false;
    }
    static void blip()
    {
        trace("BLIP");
        label("primary component lost and restored");
        g->primary = false;
        std::vector<Node*> ns = live();
        seq_t last = g->last();
        for (auto n : ns) { n->prim = false; n->sync_after = 1LL << 60; }
        for (auto n : ns)
        {
            n->prim = false;
            wait_for("drained before non primary", [n, last] { return n->down || (n->applier_idle && n->ctl.empty() && n->next > last && n->prov->last_left >= last); });
            on_applier(n, [n, last] { n->ss.on_view(make_view(last, wsrep::view::non_primary, std::vector<wsrep::id>(1, n->sid), n->sid), n->main); });
        }
        for (uint32_t i = range(0, 20); i; --i) yield();
        g->primary = true;
        order_view();
        for (auto n : ns) n->sync_after = g->last();
    }
    static bool drained(Node* n)
    {
        return n->applier_idle && n->ctl.empty() && n->next > g->last() && n->prov->last_left >= g->last() && n->rbq.empty() && !n->rb_busy && n->prim;
    }
    void drain()
    {
        for (int round = 0; round < 20; ++round)
        {
            seq_t last = g->last();
            for (auto n : live()) wait_for("node drained", [n] { return drained(n); });
            bool more = false;
            for (auto n : live())
            {
                on_applier(n, [n] { n->do_sync(); });
                VCHECK("C09", n->prov->rbq.empty() && n->prov->limbo.empty(), "%s: rollback message of transaction %llu is lost: still unsent after the queue was flushed", n->name.c_str(),
                       (unsigned long long)(n->prov->rbq.empty() ? n->prov->limbo[0].tid : n->prov->rbq[0].tid));
            }
            for (auto n : live()) if (!drained(n)) more = true;
            if (!more && g->last() == last) return;
        }
        fail("C09 C25", "rollback messages are sent over and over");
    }
    void control()
    {
        // Bring up initial nodes
        for (auto n : g->nodes) member(n->sid, true);
        for (auto& x : g->ghosts) member(x, true);
        g->init_view = order_view()->seqno;
        g->init_members = g->members;
        for (auto n : g->nodes)
        {
            start_node(n, true);
            n->sync_after = 1;
            n->up = true;
            spawn_daemons(n);
            start_clients(n);
        }
        if (g->ghosts.size()) spawn("ghost", ghost_run);
        if (g->cfg.killer_ops)
        {
            Node* n = g->nodes[0];
            g->killer_aim = 0; g->killer_node = n;
            spawn("killer", [n] {
                const bool xa_prop = prop_is("C10 C11 C13");
                for (int i = 0; i < g->cfg.killer_ops; ++i)
                {
                    std::vector<Client*> cs;
                    // What the abort is aimed at: anything, a write set being replicated or waiting
                    // for its order, a fragment, a prepared XA transaction, an idle session, a prepared XA transaction about to commit, a transaction between its prepare and commit
                    const uint32_t aim = wpick({ 4, 4, (uint32_t)(g->cfg.streaming || g->cfg.xa ? 2 : 0), (uint32_t)(g->cfg.xa && g->cfg.xa_kills ? (xa_prop ? 10 : 4) : 0), 2, (uint32_t)(g->cfg.xa && g->cfg.xa_kills ? (xa_prop ? 8 : 2) : 0), (uint32_t)(g->cfg.twopc || g->cfg.xa ? 3 : 0) });
                    g->killer_aim = (int)aim;
                    auto find = [n, aim, &cs] {
                        cs.clear();
                        for (auto c : n->clients)
                        {
                            if (c->is_hp || !c->own.active || !c->transaction().active()) continue;
                            if (c->prepared_like() && !g->cfg.xa_kills) continue;
                            H* h = n->prov->find(c->transaction().id().get());
                            const TS st = c->transaction().state();
                            const bool busy = h && (h->phase == H::Replicating || h->phase == H::Certified) && !h->entered;
                            if (aim == 1 && !(busy && !h->is_frag)) continue;
                            if (aim == 2 && !((busy && h->is_frag) || st == T::s_certifying)) continue;
                            if (aim == 3 && !(c->xa == Client::x_prepared || st == T::s_prepared)) continue;
                            if (aim == 5 && !(c->xa == Client::x_prepared && c->in_commitish && (!h || h->phase == H::Exec || h->phase == H::Replicating))) continue;
                            if (aim == 6 && !((st == T::s_preparing || st == T::s_committing) && h && !h->entered)) continue;
                            if (aim == 4 && c->state() != wsrep::client_state::s_idle) continue;
                            cs.push_back(c);
                        }
                        return !cs.empty();
                    };
                    for (uint32_t y = range(0, aim ? 4 : 25); y; --y) yield();
                    if (aim) wait_for("killer: victim", [n, &find] { return find() || sessions_done(n); });
                    else find();
                    if (cs.empty() || n->toi_active >= 0) continue;
                    Client* v = pick(cs);
                    n->bf(v, n->prov->last_left + 1, false);
                }
                g->killer_aim = -1;
            }, false, n->group);
        }
        for (int d = 0; d < g->cfg.disruptions; ++d)
        {
            for (uint32_t i = range(0, 150); i; --i) yield();
            std::vector<Node*> up;
            for (auto n : g->nodes) if (n->up && !n->down && n->prim && !n->partitioned) up.push_back(n);
            std::vector<Node*> dead, cut;
            for (auto n : g->nodes) { if (n->down) dead.push_back(n); else if (n->partitioned) cut.push_back(n); }
            switch (wpick({ (uint32_t)(g->cfg.crash && up.size() > 1 ? 3 : 0), (uint32_t)(dead.empty() || up.empty() ? 0 : 4),
                            (uint32_t)(g->cfg.partitions && up.size() > 1 ? 3 : 0), (uint32_t)(cut.empty() || up.empty() ? 0 : 4),
                            (uint32_t)(g->cfg.blips && up.size() == g->nodes.size() ? 2 : 0), 1 }))
            {
            case 0: crash(pick(up)); break;
            case 1: { Node* o = pick(dead); join(o, pick(up)); if (chance(1, 2)) for (auto n : g->nodes) if (n->idx == o->idx) start_clients(n); break; }
            case 2: partition(pick(up)); break;
            case 3: heal(pick(cut)); break;
            case 4: blip(); break;
            default: break;
            }
            ++g->disrupted;
        }
        g->calm = true;
        // End of history
        for (uint32_t i = range(0, 60); i; --i) yield();
        for (auto n : std::vector<Node*>(g->nodes)) if (n->partitioned) heal(n);
        for (auto n : std::vector<Node*>(g->nodes)) if (n->down)
        {
            Node* donor = nullptr;
            for (auto x : g->nodes) if (x->up && !x->down && x->prim) donor = x;
            join(n, donor);
        }
        for (auto n : g->nodes) wait_for("sessions end", [n] { return sessions_done(n); });
        g->faults_on = false;
        drain();
        if (g->ghosts.size())
        {
            for (auto& x : g->ghosts) member(x, false);
            order_view();
            drain();
        }
        final_checks();
    }
    void final_checks()
    {
        Node* a = nullptr;
        bool any = false;
        for (auto n : live())
        {
            VCHECK("C08", n->live_storage == 0, "%s: %d storage services were not released", n->name.c_str(), n->live_storage);
            VCHECK("C12", n->prov->hs.empty() || [&] { for (auto& h : n->prov->hs) if (!h.second->rec || !h.second->rec->by_xid) return false; return true; }(), "%s: provider handles left open", n->name.c_str());
            VCHECK("C07 C18 C23", n->sas.size() == (size_t)n->live_hps, "services");
            for (auto h : n->sas)
            {
                const wsrep::transaction& t = h->hc->transaction();
                VCHECK("C07 C09 C23 C18 C25", t.active() && t.state() == T::s_prepared, "%s: streaming applier left over: %s", n->name.c_str(), h->desc().c_str());
                Rec* r = g->by_tid(t.id().get());
                VCHECK("C11 C23", r && r->xa && (r->xa_moved || (r->node && r->node->down)), "%s: prepared transaction left over without undecided XA: %s", n->name.c_str(), h->desc().c_str());
            }
            // C08: fragment store is empty except for prepared transactions
            for (auto& f : n->frags)
                VCHECK("C08 C07 C09 C23 C25", g->sr.count(key_of(f.sid, f.tid)) && g->sr[key_of(f.sid, f.tid)].prepared, "%s: fragment of transaction %llu at %lld left in the store after the transaction ended", n->name.c_str(), (unsigned long long)f.tid, f.seqno);
            for (auto& s : g->sr)
            {
                bool found = false, sa = false;
                for (auto& f : n->frags) found = found || (f.sid == s.second.sid && f.tid == s.first.second);
                for (auto h : n->sas) sa = sa || h->hc->transaction().id().get() == s.first.second;
                VCHECK("C11 C08 C24", found && sa, "%s: prepared XA transaction %llu is lost", n->name.c_str(), (unsigned long long)s.first.second);
            }
            for (auto& l : n->locks)
            {
                bool held = false;
                for (auto h : n->sas) held = held || &h->own == l.second;
                VCHECK("C25 C07", held, "%s: row %d is locked by nobody", n->name.c_str(), l.first);
            }
            // Every certified commit in the total order is committed, once, in order
            std::map<std::pair<std::string, uint64_t>, std::string> frags;
            std::vector<std::pair<seq_t, std::string> > want;
            for (auto e : g->log)
            {
                if (e->kind != Event::WS || !e->cert_ok) continue;
                auto k = key_of(e->sid, e->tid);
                if (e->flags & F::rollback) { frags.erase(k); continue; }
                frags[k] += e->data;
                if (e->flags & F::commit) want.push_back(std::make_pair(e->seqno, frags[k]));
            }
            size_t i = 0;
            for (auto& w : want)
            {
                VCHECK("C01 C02 C25", i < n->log.size() && n->log[i].seqno == w.first, "%s: write set %lld was certified but is not committed here", n->name.c_str(), w.first);
                VCHECK("C25 C06 C08", n->log[i].data == w.second, "%s: commit at %lld has changes '%s', replicated were '%s'", n->name.c_str(), w.first, n->log[i].data.c_str(), w.second.c_str());
                ++i;
            }
            VCHECK("C01 C02 C25", i == n->log.size(), "%s: committed %lld without certification", n->name.c_str(), n->log[i].seqno);
            if (!a) a = n;
            else
            {
                any = true;
                VCHECK("C25", a->rows == n->rows, "%s and %s have different rows", a->name.c_str(), n->name.c_str());
                VCHECK("C25 C08", a->fragdump() == n->fragdump(), "fragment stores differ: %s: %s / %s: %s", a->name.c_str(), a->fragdump().c_str(), n->name.c_str(), n->fragdump().c_str());
            }
        }
        (void)any;
        int done = 0;
        for (auto r : g->rec_list)
        {
            if (r->by_xid) continue;
            bool in = false; std::string data;
            if (a) for (auto& c : a->log) if (c.sid == r->sid && c.tid == r->tid) { in = true; data = c.data; }
            if (r->ack == a_ok && !r->empty_commit)
            {
                ++done;
                VCHECK("C02 C25", in, "transaction %llu acknowledged to its client but missing", (unsigned long long)r->tid);
                VCHECK("C06 C02 C25", data == r->data, "transaction %llu acknowledged with '%s', the group has '%s'", (unsigned long long)r->tid, r->data.c_str(), data.c_str());
            }
            if (r->ack == a_err || r->ack == a_client_rollback || (r->ack == a_ok && r->empty_commit))
                VCHECK("C02 C25", !in, "transaction %llu failed for its client but is committed", (unsigned long long)r->tid);
            VCHECK("C02 C26", r->ack != a_none, "transaction %llu has no outcome", (unsigned long long)r->tid);
        }
        mix((uint64_t)g->last());
        if (done || g->last() > 3) nontrivial();
    }

    void run_case(const Cfg& c)
    {
        g = new Group;
        g->cfg = c;
        g->uuid = wsrep::id("group");
        static const char* const kinds[] = { "cert", "frag", "xid_status", "prepare_data", "prepare_frag", "append_data", "append_key", "start_stor",
                                             "append_frag", "update_meta", "stor_commit", "remove_frags", "rollback_send", "release_frag", "not_allowed_stmt", "interrupt", "kill", "bytes_lost", "read_view", "empty_frag", "self_bf", "replay_unordered" };
        if (c.faults)
            for (uint32_t i = 1 + draw(2); i; --i) g->fault_rate[kinds[draw(22)]] = 1 + (int)draw(5);
        if (c.faults && c.xa && chance(1, 2)) g->fault_rate["xid_status"] = 1 + (int)draw(3);
        // A certified fragment which its origin could not store is missing in a snapshot taken there
        if (c.crash) { g->fault_rate.erase("update_meta"); g->fault_rate.erase("stor_commit"); }
        if (c.ghost) g->ghosts.push_back(wsrep::id("ghost"));
        for (int i = 0; i < c.nodes; ++i) g->nodes.push_back(new Node(i, g->next_inc++, c.sync_rollback));
        set_switch_rate((uint32_t)c.switch_rate);
        set_step_limit(400000);
        spawn("control", control);
        vf::run();
    }

    static bool P_(const char* l) { return prop_is(l); }
    static void engine_tx()
    {
        Cfg c;
        c.switch_rate = 1 + (int)draw(5);
        c.clients = 1 + (int)draw(3);
        c.trxs = 1 + (int)draw(3);
        c.rows = 1 + (int)draw(6);
        c.sync_rollback = !chance(1, 3);
        c.streaming = P_("C06 C07 C08 C09 C23") ? !chance(1, 8) : P_("C10 C13") ? chance(1, 3) : chance(1, 2);
        c.xa = P_("C11") ? !chance(1, 10) : chance(1, 4);
        c.twopc = chance(1, 3);
        c.faults = P_("C05") ? !chance(1, 6) : P_("C09") ? !chance(1, 6) : chance(1, 3);
        c.ghost = !chance(1, 4);
        c.ghost_ops = c.ghost ? 1 + (int)draw(12) : 0;
        c.toi = chance(1, 4);
        c.close_mid = chance(1, 2);
        c.killer_ops = P_("C01 C02 C03 C10 C11 C13") ? (int)draw(8) : (int)draw(4);
        c.xa_kills = c.xa && c.sync_rollback && chance(1, 2);
        c.blips = chance(1, 8) && !c.xa; // see DESIGN.md: XA with equal consecutive primary views
        c.disruptions = c.blips ? 1 + (int)draw(2) : 0;
        run_case(c);
    }
    static void engine_cluster()
    {
        Cfg c;
        c.switch_rate = 1 + (int)draw(5);
        c.nodes = 2 + (int)draw(2);
        c.clients = 1 + (int)draw(2);
        c.trxs = 1 + (int)draw(3);
        c.rows = 1 + (int)draw(6);
        c.sync_rollback = !chance(1, 3);
        c.streaming = P_("C23 C09 C07 C08") ? !chance(1, 8) : chance(2, 3);
        c.xa = P_("C11") ? !chance(1, 10) : chance(1, 4);
        c.twopc = chance(1, 4);
        c.faults = P_("C09") ? chance(1, 2) : chance(1, 4);
        c.toi = chance(1, 4);
        c.close_mid = chance(1, 2);
        c.killer_ops = (int)draw(P_("C03 C10 C11 C13") ? 6 : 3);
        c.xa_kills = c.xa && c.sync_rollback && chance(1, 2);
        const bool rough = P_("C07 C08 C09 C23 C24 C25");
        c.crash = rough ? chance(1, 2) : chance(1, 3);
        c.partitions = (rough ? chance(1, 2) : chance(1, 3)) && !c.xa;
        c.blips = (rough ? chance(1, 2) : chance(1, 4)) && !c.xa;
        c.disruptions = (c.crash || c.partitions || c.blips) ? 1 + (int)draw(rough ? 6 : 4) : 0;
        // see DESIGN.md: handing over of an aborted prepared XA transaction while the membership changes
        if (c.disruptions) c.xa_kills = false;
        run_case(c);
    }
    static Registrar r1("tx", engine_tx, "the history contains at least three ordered events or a transaction acknowledged as committed");
    static Registrar r2("cluster", engine_cluster, "the history contains at least three ordered events or a transaction acknowledged as committed");
}
