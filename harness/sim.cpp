// Model DBMS, model provider and group; see sim.hpp.
#include "sim.hpp"
#include <algorithm>

namespace sim
{
    using namespace vf;
    Group* g = nullptr;

    static const char* const tx_allowed[13] = {
        // ex pg pd ce co oc ct cf ma ab ad mr re
        "0101000011000", "0010100010000", "0001100011000", "1110100110000", "0000011010000",
        "0000001000000", "0000000000000", "0000000001000", "0000000101010", "0000000000100",
        "0000000000000", "0000000000001", "0100101000100" };
    static const char* const cl_allowed[5] = { "01000", "00101", "00010", "01000", "10000" };
    static const char* const md_allowed[6] = { "000000", "001111", "010101", "011000", "010000", "011000" };

    std::string ids(const wsrep::id& i) { return std::string((const char*)i.data(), i.size()); }
    static std::pair<std::string, uint64_t> key_of(const wsrep::id& s, uint64_t t) { return std::make_pair(ids(s), t); }
    static wsrep::gtid gt(seq_t s) { return wsrep::gtid(g->uuid, wsrep::seqno(s)); }
    static wsrep::key_array keys_of(const std::set<int>& ks, std::vector<std::string>& hold)
    {
        wsrep::key_array a;
        hold.reserve(ks.size() * 2 + 2);
        for (int k : ks)
        {
            hold.push_back("t" + std::to_string(k / 3));
            hold.push_back("r" + std::to_string(k));
            wsrep::key key(wsrep::key::exclusive);
            key.append_key_part(hold[hold.size() - 2].data(), hold[hold.size() - 2].size());
            key.append_key_part(hold[hold.size() - 1].data(), hold[hold.size() - 1].size());
            a.push_back(key);
        }
        return a;
    }
    static int row_of(const wsrep::key& k)
    {
        VCHECK("C06 C12", k.size() == 2, "provider got a key with %zu parts, two were appended", k.size());
        std::string p0(k.key_parts()[0].data(), k.key_parts()[0].size());
        std::string p(k.key_parts()[1].data(), k.key_parts()[1].size());
        int r = p.size() > 1 && p[0] == 'r' ? atoi(p.c_str() + 1) : -1;
        VCHECK("C06 C12", r >= 0 && p0 == "t" + std::to_string(r / 3), "provider got key '%s/%s' which was never appended", p0.c_str(), p.c_str());
        return r;
    }

    std::vector<Op> parse(const std::string& d)
    {
        std::vector<Op> r;
        size_t p = 0;
        while (p < d.size())
        {
            size_t e = d.find(';', p);
            if (e == std::string::npos) fail("C06 C08 C18 C25", "write set data '%s' is cut in the middle", d.c_str());
            std::string t = d.substr(p, e - p);
            if (t[0] == 'W')
            {
                Op o;
                size_t c = t.find(':'), x = t.find('>');
                if (c == std::string::npos || x == std::string::npos) fail("C06 C25", "corrupt write set data '%s'", d.c_str());
                o.k = atoi(t.c_str() + 1);
                o.from = t.substr(c + 1, x - c - 1);
                o.to = t.substr(x + 1);
                r.push_back(o);
            }
            p = e + 1;
        }
        return r;
    }
    static std::string xid_in(const std::string& d)
    {
        size_t p = d.find("X");
        if (p == std::string::npos) return "";
        return d.substr(p + 1, d.find(';', p) - p - 1);
    }
    static wsrep::xid mkxid(const std::string& s) { return wsrep::xid(1, (long)s.size(), 0, s.data()); }

    wsrep::view make_view(seq_t s, enum wsrep::view::status st, const std::vector<wsrep::id>& m, const wsrep::id& own)
    {
        std::vector<wsrep::view::member> ms;
        ssize_t own_i = -1;
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (m[i] == own) own_i = (ssize_t)i;
            ms.push_back(wsrep::view::member(m[i], "n" + std::to_string(i), ""));
        }
        return wsrep::view(gt(s), wsrep::seqno(s), st, 0, own_i, 1, ms);
    }

    // ---- group ---------------------------------------------------------
    Rec* Group::rec(const wsrep::id& sid, uint64_t tid)
    {
        auto i = recs.find(key_of(sid, tid));
        return i == recs.end() ? nullptr : i->second;
    }
    Rec* Group::by_tid(uint64_t tid)
    {
        auto i = tids.find(tid);
        return i == tids.end() ? nullptr : i->second;
    }
    bool Group::fault(const char* what)
    {
        if (!faults_on) return false;
        auto i = fault_rate.find(what);
        if (i == fault_rate.end() || !i->second) return false;
        if (!chance(1, (uint32_t)i->second)) return false;
        label(what);
        trace("FAULT %s", what);
        return true;
    }
    // Append to the total order and decide certification.
    seq_t Group::order(Event* e)
    {
        e->seqno = (seq_t)log.size() + 1;
        const seq_t s = e->seqno;
        auto tk = key_of(e->sid, e->tid);
        if (e->kind == Event::WS)
        {
            const bool rb = e->flags & F::rollback, start = e->flags & F::start_transaction;
            seq_t dep = std::max(last_toi, last_view);
            auto own = sr.find(tk);
            if (!rb)
            {
                auto conflict = [&](const std::map<int, Ent>& idx, int k) {
                    auto i = idx.find(k);
                    if (i == idx.end()) return;
                    if (i->second.sid == e->sid && i->second.tid == e->tid) { dep = std::max(dep, i->second.s); return; }
                    dep = std::max(dep, i->second.s);
                    if (i->second.s > e->last_seen) { e->cert_ok = false; e->why = "key"; }
                };
                for (int k : e->ex) { conflict(ex, k); conflict(sh, k); }
                for (int k : e->sh) conflict(ex, k);
                if ((e->ex.size() || e->sh.size()) && last_toi > e->last_seen) { e->cert_ok = false; e->why = "toi"; }
                if (!start && own == sr.end()) { e->cert_ok = false; e->why = "closed"; }
            }
            // A failed write set of a streaming transaction reaches the appliers as its rollback
            if (!e->cert_ok && !start && own != sr.end() && !own->second.prepared && chance(1, 2)) e->as_rollback = true;
            if (own != sr.end()) dep = std::max(dep, own->second.last);
            dep = std::max(dep, last_unsafe);
            if (rb || e->as_rollback || (e->flags & (F::pa_unsafe | F::implicit_deps))) dep = s - 1;
            if (rb || e->as_rollback || (e->flags & F::pa_unsafe)) last_unsafe = s;
            e->depends = dep;
            if (e->as_rollback) { label("failed write set delivered as rollback"); sr.erase(tk); }
            if (e->cert_ok)
            {
                Ent en; en.s = s; en.sid = e->sid; en.tid = e->tid;
                for (int k : e->ex) ex[k] = en;
                for (int k : e->sh) sh[k] = en;
                if (rb || (e->flags & F::commit)) sr.erase(tk);
                else
                {
                    SR& r = sr[tk];
                    r.last = s; r.sid = e->sid;
                    r.keys.insert(e->ex.begin(), e->ex.end());
                    if (e->flags & F::prepare) r.prepared = true;
                }
            }
        }
        else
        {
            e->depends = s - 1;
            if (e->kind == Event::TOI)
            {
                last_toi = s;
                for (auto i = sr.begin(); i != sr.end(); ) { if (!i->second.prepared && i->second.keys.size()) { closed[i->first] = s; sr.erase(i++); } else ++i; }
                for (auto& i : sr)
                {
                    e->survive.insert(i.first);
                    if (i.second.prepared) e->skip.insert(i.second.keys.begin(), i.second.keys.end());
                }
            }
            else
            {
                last_view = s;
                bool equal = e->equal = e->members == prev_members;
                for (auto i = sr.begin(); i != sr.end(); )
                {
                    bool member = std::find(e->members.begin(), e->members.end(), i->second.sid) != e->members.end();
                    if (!i->second.prepared && (equal || !member)) { closed[i->first] = s; sr.erase(i++); } else ++i;
                }
                prev_members = e->members;
            }
        }
        log.push_back(e);
        trace("ORDER %lld kind=%d %s trx=%llu flags=%d data='%s' ex=%zu seen=%lld dep=%lld cert=%d %s", s, (int)e->kind,
              e->origin ? e->origin->name.c_str() : "-", (unsigned long long)e->tid, e->flags, e->data.c_str(),
              e->ex.size(), e->last_seen, e->depends, (int)e->cert_ok, e->why.c_str());
        return s;
    }

    // ---- provider ------------------------------------------------------
    void Prov::advance()
    {
        while (cancel.count(last_left + 1)) { cancel.erase(last_left + 1); ++last_left; }
    }
    void Prov::finish(seq_t s)
    {
        VCHECK("C01", s == last_left + 1, "%s: position %lld left after %lld", n.name.c_str(), s, last_left);
        last_left = s;
        advance();
    }
    void Prov::cancel_pos(seq_t s) { cancel.insert(s); trace("%s cancel %lld", n.name.c_str(), s); advance(); }
    H* Prov::use(const wsrep::ws_handle& wh, const char* what)
    {
        uint64_t t = wh.transaction_id().get();
        H* r = find(t);
        if (!r)
        {
            if (released.count(t)) fail("C12", "%s: %s with the handle of transaction %llu which was already released", n.name.c_str(), what, (unsigned long long)t);
            fail("C12", "%s: %s with a handle of unknown transaction %llu", n.name.c_str(), what, (unsigned long long)t);
        }
        return r;
    }
    int Prov::start_transaction(wsrep::ws_handle& wh)
    {
        uint64_t t = wh.transaction_id().get();
        VCHECK("C12 C02", !find(t) && !released.count(t), "transaction %llu started twice", (unsigned long long)t);
        H* h = new H;
        h->tid = t;
        h->rec = g->by_tid(t);
        hs[t] = h;
        return 0;
    }
    S_t Prov::assign_read_view(wsrep::ws_handle& wh, const wsrep::gtid*)
    {
        H* h = use(wh, "assign_read_view");
        if (!g->fault("read_view")) return success;
        if (h->rec && h->rec->client) h->rec->client->api_refused = true;
        return error_unknown;
    }
    int Prov::append_key(wsrep::ws_handle& wh, const wsrep::key& k)
    {
        H* h = use(wh, "append_key");
        int r = row_of(k);
        if (k.type() == wsrep::key::shared) h->sh.insert(r);
        else
        {
            VCHECK("C06 C12", k.type() == wsrep::key::exclusive, "key type changed on the way to the provider");
            h->ex.insert(r);
        }
        yield();
        if (g->fault("append_key"))
        {
            // (while the application adds keys the session only passes the failure on)
            if (h->rec && h->rec->client && h->rec->client->in_commitish) h->rec->cause("append_key", wsrep::e_error_during_commit, 0);
            if (h->rec && h->rec->client) h->rec->client->api_refused = true;
            return 1;
        }
        return 0;
    }
    S_t Prov::append_data(wsrep::ws_handle& wh, const wsrep::const_buffer& b)
    {
        H* h = use(wh, "append_data");
        yield();
        if (!(h->rec && h->rec->xa_prepared) && g->fault("append_data"))
        {
            if (h->rec)
            {
                bool frag = h->rec->client && h->rec->client->frag_expected;
                h->rec->cause("append_data", frag ? wsrep::e_error_during_commit : wsrep::e_size_exceeded_error, frag ? 0 : (int)error_size_exceeded);
            }
            return error_unknown;
        }
        h->data.append(b.data(), b.size());
        return success;
    }
    // Rollback queue model: failed first sends become pending once the failing call has returned.
    void Prov::promote(int fiber)
    {
        for (auto i = limbo.begin(); i != limbo.end(); )
        {
            if (i->fiber == fiber) { i->stamp = ++stamp; rbq.push_back(*i); i = limbo.erase(i); }
            else ++i;
        }
    }
    S_t Prov::rollback(wsrep::transaction_id id)
    {
        uint64_t t = id.get();
        const int f = current_id();
        Rec* r0 = g->by_tid(t);
        VCHECK("C07 C09", r0, "%s: rollback message for unknown transaction %llu", n.name.c_str(), (unsigned long long)t);
        auto q = std::find_if(rbq.begin(), rbq.end(), [&](const Pend& p) { return p.tid == t; });
        auto l = std::find_if(limbo.begin(), limbo.end(), [&](const Pend& p) { return p.tid == t; });
        const bool retry = q != rbq.end() || l != limbo.end();
        if (!retry)
        {
            VCHECK("C07 C09", !rb_seen.count(t), "%s: rollback message for transaction %llu issued again after it was delivered", n.name.c_str(), (unsigned long long)t);
            VCHECK("C07", r0->db_commits == 0 && !r0->commit_passed(), "%s: rollback message for committed transaction %llu", n.name.c_str(), (unsigned long long)t);
            VCHECK("C07", r0->frags_reached > 0, "%s: rollback message for transaction %llu none of whose fragments reached the group", n.name.c_str(), (unsigned long long)t);
            VCHECK("C07", !r0->to_abort || r0->to_race, "%s: rollback message for transaction %llu which was aborted in total order", n.name.c_str(), (unsigned long long)t);
            VCHECK("C11 C07", !r0->xa_acked || r0->xa_decided_rollback, "%s: rollback message for prepared XA transaction %llu", n.name.c_str(), (unsigned long long)t);
            // (a stand-in is gone already when its group has closed the transaction in total order)
            if (!n.ss.mutex_mine(n.smx))
            {
                const bool have = n.ss.find_streaming_applier(r0->sid, id); // may yield
                VCHECK("C07", have || n.ss.state() == wsrep::server_state::s_disconnected || !g->sr.count(key_of(r0->sid, t)) || (r0->xa && r0->to_race),
                       "%s: rollback message for %llu issued without a registered stand-in applier", n.name.c_str(), (unsigned long long)t);
            }
            ++r0->rb_first;
        }
        else
        {
            seq_t first = q != rbq.end() ? q->failed : l->failed;
            for (auto& p : rbq)
                VCHECK("C09", p.tid == t || p.stamp > first, "%s: rollback message of %llu resent before the older one of %llu", n.name.c_str(), (unsigned long long)t, (unsigned long long)p.tid);
            label("rollback message resent");
        }
        q = std::find_if(rbq.begin(), rbq.end(), [&](const Pend& p) { return p.tid == t; }); // the look-up above is a scheduling point
        // No scheduling point here: the caller may hold server or client mutex
        bool bad = !n.can_replicate() || g->fault("rollback_send");
        if (bad)
        {
            trace("%s rollback %llu send failed", n.name.c_str(), (unsigned long long)t);
            // whoever is resending the message for others gives up
            if (retry) for (auto c : n.clients) if (c->api_fiber == f && c->rec) c->rec->disturbed = true;
            if (!retry) { Pend p; p.tid = t; p.fiber = f; p.failed = ++stamp; limbo.push_back(p); label("rollback message queued"); }
            else if (chance(1, 3)) (void)0;
            return chance(1, 2) ? error_connection_failed : error_provider_failed;
        }
        if (q != rbq.end()) rbq.erase(q);
        l = std::find_if(limbo.begin(), limbo.end(), [&](const Pend& p) { return p.tid == t; });
        if (l != limbo.end()) limbo.erase(l);
        rb_seen.insert(t);
        Event* e = new Event;
        e->flags = F::rollback; e->sid = r0->sid; e->tid = t; e->origin = &n; e->self_apply = true;
        e->last_seen = last_left;
        g->order(e);
        return success;
    }

    S_t Prov::certify(wsrep::client_id cid, wsrep::ws_handle& wh, int flags, wsrep::ws_meta& meta, const seq_cb_t* cb)
    {
        H* h = use(wh, "certify");
        Client* c = n.client(cid.get());
        VCHECK("C04 C12", c, "certify for unknown client");
        const bool by_xid = !meta.server_id().is_undefined();
        Rec* r = h->rec;
        const bool is_commit = flags & F::commit;
        VCHECK("C12 C01", h->phase == H::Exec, "%s: certify for transaction %llu in provider phase %d", n.name.c_str(), (unsigned long long)h->tid, (int)h->phase);
        if (!by_xid)
        {
            VCHECK("C06 C12", r, "no record");
            VCHECK("C10", c->asked_replayers, "%s: transaction %llu certifies without waiting for replayers", n.name.c_str(), (unsigned long long)h->tid);
            VCHECK("C05", !c->killed_before, "%s: transaction %llu certifies although its session was interrupted before", n.name.c_str(), (unsigned long long)h->tid);
            // Queue of undelivered rollback messages has been flushed before this
            bool xa_commit = c->transaction().is_xa() && is_commit;
            if (!xa_commit)
                for (auto& p : rbq)
                    VCHECK("C09", p.stamp > c->api_stamp, "%s: certification of %llu with undelivered rollback message of %llu in queue", n.name.c_str(), (unsigned long long)h->tid, (unsigned long long)p.tid);
            VCHECK("C06 C12", !!(flags & F::start_transaction) == !r->started_replicated, "%s: transaction %llu replicates with start flag %d, fragments so far %d", n.name.c_str(), (unsigned long long)h->tid, !!(flags & F::start_transaction), r->frags_ok);
            VCHECK("C06 C11", !(flags & F::rollback) && !(flags & F::isolation), "unexpected flags %d", flags);
            VCHECK("C06 C02", !!(flags & F::implicit_deps) == c->want_implicit, "implicit dependency flag is %d, session asked %d", !!(flags & F::implicit_deps), (int)c->want_implicit);
            // data: everything generated since the previous fragment
            std::string want = c->own.pending.substr(r->streamed.size());
            VCHECK("C06 C02", h->data == want, "%s: transaction %llu replicates '%s', unreplicated data is '%s'", n.name.c_str(), (unsigned long long)h->tid, h->data.c_str(), want.c_str());
            if (r->started_replicated && (is_commit ? !r->xa : c->preparing))
                VCHECK("C05 C06", r->asked_allowed, "%s: streaming transaction %llu commits without asking the DBMS whether its last statement allows that", n.name.c_str(), (unsigned long long)h->tid);
            if (is_commit)
            {
                VCHECK("C11 C06", !(flags & F::prepare), "commit write set is marked as prepare");
                if (r->started_replicated)
                {
                    VCHECK("C06", flags & F::pa_unsafe, "commit of a streamed transaction is not marked unsafe for parallel applying");
                    if (!r->xa) for (int k : r->frag_keys)
                        VCHECK("C06", h->sh.count(k) || h->ex.count(k), "commit of streamed transaction %llu lacks key of row %d of its fragments", (unsigned long long)h->tid, k);
                }
                for (int k : r->keys)
                    VCHECK("C06 C12", r->frag_keys.count(k) || h->ex.count(k), "write set of %llu lacks the key of row %d", (unsigned long long)h->tid, k);
                for (int k : h->ex) VCHECK("C12 C06", r->keys.count(k), "write set of %llu has key of row %d which it did not write", (unsigned long long)h->tid, k);
                for (int k : h->sh) VCHECK("C12 C06", r->keys.count(k), "write set of %llu has a reference to row %d which it did not touch", (unsigned long long)h->tid, k);
                if (r->xa) VCHECK("C11", r->xa_prepared, "XA commit replicated without prepare");
            }
            else
            {
                VCHECK("C11 C06", !!(flags & F::prepare) == c->preparing, "fragment of %llu has prepare flag %d", (unsigned long long)h->tid, !!(flags & F::prepare));
                if (c->preparing && r->started_replicated)
                    for (int k : r->frag_keys)
                        VCHECK("C06 C11", h->sh.count(k) || h->ex.count(k), "XA prepare of streamed transaction %llu lacks key of row %d of its fragments", (unsigned long long)h->tid, k);
                if (c->preparing) VCHECK("C11 C06", flags & F::pa_unsafe, "XA prepare fragment is not marked unsafe for parallel applying");
                VCHECK("C06", c->frag_expected, "%s: fragment of transaction %llu replicated although the threshold is not reached (unit %d size %zu counter %zu)", n.name.c_str(), (unsigned long long)h->tid, c->unit, c->fsize, c->counter);
                VCHECK("C08", c->storage_pending == h->data, "fragment '%s' certified before it is in the fragment store ('%s')", h->data.c_str(), c->storage_pending.c_str());
                ++c->frag_calls;
            }
            VCHECK("C03 C01", c->own.active, "transaction %llu certified after its changes were rolled back", (unsigned long long)h->tid);
        }
        else
        {
            VCHECK("C11", (is_commit != !!(flags & F::rollback)) && (flags & F::pa_unsafe) && !(flags & F::start_transaction), "decision by XA identifier has flags %d", flags);
            VCHECK("C11", meta.server_id() == c->by_sid && meta.transaction_id().get() == c->by_tid, "decision by XA identifier names another transaction");
            VCHECK("C11", is_commit == c->by_commit, "decision by XA identifier inverted");
            for (auto i = n.xid_busy.begin(); i != n.xid_busy.end(); ) { if ((*i)->sid == c->by_sid && (*i)->tid == c->by_tid) n.xid_busy.erase(i++); else ++i; }
        }
        h->is_frag = !is_commit && !by_xid;
        h->phase = H::Replicating;
        // Caller's client mutex is held for decisions by XA identifier
        if (!by_xid) yield();
        if (!by_xid && is_commit && r->xa) c->linger(5);
        auto undo = [&](PS st) {
            h->phase = H::Exec;
            h->data.clear();
            meta = wsrep::ws_meta();
            trace("%s certify %llu -> %d (not ordered)", n.name.c_str(), (unsigned long long)h->tid, (int)st);
            return st;
        };
        if (g->fault(h->is_frag ? "frag" : by_xid ? "xid_status" : "cert"))
        {
            static const PS all[] = { error_connection_failed, error_provider_failed, error_size_exceeded, error_warning,
                                      error_transaction_missing, error_fatal, error_not_implemented, error_not_allowed, error_unknown };
            // An XA transaction can only stay prepared on a lost connection; others end it
            PS st = (r && r->xa && is_commit) || by_xid ? error_connection_failed : all[draw(9)];
            if (by_xid && chance(1, 2)) st = error_provider_failed;
            if (r && !by_xid)
            {
                if (h->is_frag) r->cause("frag", st == error_size_exceeded ? wsrep::e_size_exceeded_error : wsrep::e_deadlock_error, st);
                else r->cause("cert", wsrep::e_error_during_commit, st);
                if (st == error_fatal && is_commit) ++c->fatal_faults;
            }
            return undo(st);
        }
        if (h->aborted)
        {
            label("certify after abort");
            h->phase = H::Aborting;
            h->data.clear();
            meta = wsrep::ws_meta();
            r->cause("bf", 0, 0);
            // (a prepared XA transaction stays prepared: its commit cannot fail certification)
            if ((r->xa && is_commit) || chance(1, 2)) return error_connection_failed;
            if (h->is_frag) ++r->frags_reached; // the library cannot know
            return error_certification_failed;
        }
        if (!n.can_replicate())
        {
            if (r && !by_xid)
            {
                if (h->is_frag) r->cause("conn", wsrep::e_deadlock_error, error_connection_failed);
                else r->cause("conn", wsrep::e_error_during_commit, error_connection_failed);
            }
            return undo(error_connection_failed);
        }
        Event* e = new Event;
        e->origin = &n; e->flags = flags; e->cid = cid.get(); e->data = h->data; e->ex = h->ex; e->sh = h->sh;
        for (int k : e->ex) e->sh.erase(k);
        e->last_seen = last_left;
        if (by_xid) { e->sid = meta.server_id(); e->tid = meta.transaction_id().get(); e->self_apply = true; e->ex.clear(); e->sh.clear(); }
        else { e->sid = r->sid; e->tid = h->tid; }
        if (by_xid && !g->sr.count(key_of(e->sid, e->tid)))
        {
            // Already decided by somebody else
            delete e;
            return undo(error_not_allowed);
        }
        seq_t s = g->order(e);
        if (cb && cb->fn) cb->fn(cb->ctx);
        meta = wsrep::ws_meta(gt(s), wsrep::stid(e->sid, wsrep::transaction_id(e->tid), cid), wsrep::seqno(e->depends), flags);
        if (by_xid)
        {
            h->phase = H::Exec;
            h->data.clear();
            Rec* t = g->rec(e->sid, e->tid);
            if (t) { ++t->decisions; VCHECK("C11", t->decisions == 1, "two decisions replicated for one XA transaction"); if (is_commit) t->xa_decided_commit = true; else t->xa_decided_rollback = true; }
            return success;
        }
        h->seqno = s;
        if (h->is_frag)
        {
            ++r->frags_reached;
            r->frag_keys.insert(h->ex.begin(), h->ex.end());
        }
        else { r->commit_seqno = s; c->pos_given = s; }
        for (uint32_t i = range(0, 3); i; --i) yield();
        // certification follows the order: earlier write sets may be applied meanwhile
        if (!e->cert_ok && is_commit && chance(1, 2)) wait_for("certification turn", [this, h, s] { return h->aborted || last_left >= s - 1; });
        else if (is_commit && !r->xa) c->linger(1);
        else if (h->is_frag) c->linger(2);
        if (!e->cert_ok)
        {
            label("certification conflict");
            if (h->aborted && is_commit && !r->xa && (e->as_rollback || e->why == "closed" || !r->started_replicated) && chance(2, 3))
            {
                // aborted before the outcome of certification was known: replay finds out
                label("abort before the outcome of certification");
                h->phase = H::MustReplay;
                r->cause("bf", 0, 0);
                return error_bf_abort;
            }
            h->phase = H::Aborting;
            if (h->is_frag) r->cause("conflict", wsrep::e_deadlock_error, error_certification_failed);
            else r->cause("conflict", wsrep::e_deadlock_error, success);
            if (h->is_frag || chance(1, 2))
            {
                meta = wsrep::ws_meta();
                if (!h->is_frag) { r->commit_seqno = -1; c->pos_given = -1; }
            }
            else h->must_leave = true;
            trace("%s certify %llu -> conflict at %lld", n.name.c_str(), (unsigned long long)h->tid, s);
            return error_certification_failed;
        }
        if (h->is_frag) { ++r->frags_ok; r->streamed += h->data; r->started_replicated = true; }
        else r->committing_data = c->own.pending;
        const bool self = !by_xid && !h->aborted && g->fault("self_bf");
        if (self || h->aborted)
        {
            label("abort during replication");
            h->phase = h->is_frag ? H::Aborting : H::MustReplay;
            r->cause("bf", 0, 0);
            trace("%s certify %llu -> bf_abort at %lld", n.name.c_str(), (unsigned long long)h->tid, s);
            return error_bf_abort;
        }
        h->phase = H::Certified;
        if (!by_xid) ++c->stmt_certified;
        trace("%s certify %llu -> ok at %lld", n.name.c_str(), (unsigned long long)h->tid, s);
        return success;
    }

    S_t Prov::bf_abort(wsrep::seqno bfs, wsrep::transaction_id id, wsrep::client_service&, wsrep::seqno& victim)
    {
        H* h = find(id.get());
        PS st = success;
        victim = wsrep::seqno::undefined();
        if (h)
        {
            if (h->seqno > 0) victim = wsrep::seqno(h->seqno);
            const bool commit_ws = !h->is_frag && h->seqno > 0;
            if (h->phase == H::Certified && commit_ws && (h->entered || h->seqno < bfs.get())) st = error_not_allowed;
            else if (h->phase == H::Replicating && commit_ws && h->seqno < bfs.get()) st = error_not_allowed;
            else if (h->phase == H::Replaying || h->phase == H::Done) st = error_not_allowed;
            else if (h->phase == H::Aborting && commit_ws && chance(1, 2)) st = error_not_allowed;
            else
            {
                h->aborted = true;
                if (h->phase == H::Certified && commit_ws) h->phase = H::MustReplay;
                if (n.in_view == current_id())
                {
                    // closed by the view handler: every member does the same in total order
                    label("local streaming transaction closed by view");
                    Rec* r = g->by_tid(id.get());
                    if (r)
                    {
                        r->to_abort = r->bf_accepted = true;
                        if (h->is_frag && !r->causes.empty()) r->to_race = true;
                        // ... a fragment which fails on a node cut off from the group is rolled back by its client at the same time
                        for (auto c : n.clients) if (c->rec == r && (c->own_rollback() || (c->transaction().state() == T::s_certifying && (!n.can_replicate() || n.ss.id().is_undefined())))) r->to_race = true;
                    }
                }
            }
        }
        verdict[current_id()] = (int)st + 1;
        trace("%s provider bf_abort %llu by %lld -> %d", n.name.c_str(), (unsigned long long)id.get(), bfs.get(), (int)st);
        return st;
    }

    S_t Prov::commit_order_enter(const wsrep::ws_handle& wh, const wsrep::ws_meta& meta)
    {
        seq_t s = meta.seqno().get();
        VCHECK("C01 C18", s > 0 && s <= g->last() && meta.gtid() == gt(s), "%s: commit order entered with position %lld which nobody was given", n.name.c_str(), s);
        H* h = find(wh.transaction_id().get());
        if (h && h->seqno != s) h = nullptr;
        Event& e = g->ev(s);
        if (h)
        {
            if (h->phase == H::Certified || h->phase == H::MustReplay)
            {
                VCHECK("C01", h->phase == H::Certified || !h->is_frag, "order");
            }
            else if (h->phase == H::Aborting)
            {
                VCHECK("C01", !h->is_frag || h->must_leave, "%s: aborted fragment at %lld enters commit order", n.name.c_str(), s);
                VCHECK("C01", h->must_leave, "%s: position %lld was not handed out to the transaction but is entered", n.name.c_str(), s);
                VCHECK("C01 C03", !h->rec->client->own.active, "%s: order of rolled back transaction %llu entered before its rollback", n.name.c_str(), (unsigned long long)h->tid);
            }
            else VCHECK("C01", h->phase == H::Replaying, "%s: commit order of %lld entered by transaction in provider phase %d", n.name.c_str(), s, (int)h->phase);
        }
        else
        {
            // Applying: only the applier that is processing the event may enter
            VCHECK("C01 C18", n.busy_seqno == s, "%s: commit order %lld entered without being processed (applier is at %lld)", n.name.c_str(), s, n.busy_seqno);
            VCHECK("C01 C18", e.sid == meta.server_id(), "write set meta data mixed up");
        }
        VCHECK("C01", !entered.count(s) || n.busy_seqno == s, "%s: position %lld entered twice", n.name.c_str(), s);
        yield();
        if (h && h->aborted && h->is_frag && h->phase == H::Certified && chance(1, 2)) { label("fragment store commit aborted"); h->phase = H::Aborting; return error_bf_abort; }
        wait_for("commit order", [this, s, h] { return last_left == s - 1 || (h && (h->phase == H::MustReplay || (h->is_frag && h->aborted))) || last_left >= s; });
        if (h && h->is_frag && h->aborted && last_left != s - 1) { label("fragment store commit aborted"); h->phase = H::Aborting; return error_bf_abort; }
        if (h && h->phase == H::Certified && !h->is_frag && !(h->rec && h->rec->by_xid) && g->fault("self_bf"))
        {
            // the provider gave up by itself
            h->rec->cause("bf", 0, 0);
            h->phase = H::MustReplay;
        }
        if (h && h->phase == H::MustReplay) { label("abort in commit order"); return error_bf_abort; }
        VCHECK("C01", last_left == s - 1, "%s: position %lld entered after it was consumed", n.name.c_str(), s);
        VCHECK("C01", inside < 0, "%s: position %lld entered while %lld is inside", n.name.c_str(), s, inside);
        inside = s;
        entered.insert(s);
        if (h) h->entered = true;
        trace("%s enter %lld", n.name.c_str(), s);
        return success;
    }
    int Prov::commit_order_leave(const wsrep::ws_handle& wh, const wsrep::ws_meta& meta, const wsrep::mutable_buffer&)
    {
        seq_t s = meta.seqno().get();
        VCHECK("C01 C18", inside == s, "%s: commit order left with position %lld while %lld is inside", n.name.c_str(), s, inside);
        inside = -1;
        H* h = find(wh.transaction_id().get());
        if (h && h->seqno == s)
        {
            if (!h->left && h->rec && !h->rec->by_xid) VCHECK("C01", n.position == s, "%s: commit order of %lld left although the DBMS was not told the position", n.name.c_str(), s);
            h->left = true;
        }
        n.position = s;
        trace("%s leave %lld", n.name.c_str(), s);
        const bool lost = h && h->seqno == s && h->is_frag && h->aborted && h->phase == H::Certified && !g->cfg.crash && chance(1, 2);
        if (lost) { label("fragment store commit aborted in commit order"); h->phase = H::Aborting; }
        finish(s);
        return lost ? (int)error_bf_abort : 0;
    }
    int Prov::release(wsrep::ws_handle& wh)
    {
        uint64_t t = wh.transaction_id().get();
        if (wh.transaction_id() == wsrep::transaction_id::undefined()) return 0;
        H* h = find(t);
        if (!h)
        {
            Rec* r = g->by_tid(t);
            VCHECK("C12", r && r->xa && r->releases, "%s: handle of transaction %llu released again", n.name.c_str(), (unsigned long long)t);
            return 0;
        }
        if (h->is_frag && h->phase == H::Certified && h->left && !h->rel_failed)
        {
            // Fragment done, the transaction goes on
            if (g->fault("release_frag"))
            {
                h->rec->cause("release_frag", wsrep::e_deadlock_error, 0);
                h->rel_failed = true;
                return 1;
            }
            bool ab = h->aborted;
            h->phase = H::Exec; h->is_frag = false; h->left = h->entered = false; h->seqno = -1;
            h->data.clear(); h->ex.clear(); h->sh.clear();
            h->aborted = ab;
            return 0;
        }
        Rec* r = h->rec;
        VCHECK("C01", !(h->must_leave && !h->left), "%s: transaction %llu released without leaving commit order of %lld", n.name.c_str(), (unsigned long long)t, h->seqno);
        VCHECK("C01 C02 C10", !(h->phase == H::Certified && !h->is_frag && !h->left), "%s: certified transaction %llu at %lld released without commit or replay", n.name.c_str(), (unsigned long long)t, h->seqno);
        VCHECK("C10 C01", h->phase != H::MustReplay, "%s: transaction %llu at %lld must be replayed but was released", n.name.c_str(), (unsigned long long)t, h->seqno);
        VCHECK("C12", !(r && r->client && r->client->own.active && r->client->own_tid == t && !r->client->detaching), "%s: handle of transaction %llu released while the DBMS transaction is open", n.name.c_str(), (unsigned long long)t);
        if (h->seqno > 0 && !h->left && h->phase != H::Done) cancel_pos(h->seqno);
        if (r) ++r->releases;
        hs.erase(t);
        released.insert(t);
        trace("%s release %llu", n.name.c_str(), (unsigned long long)t);
        return 0;
    }
    S_t Prov::replay(const wsrep::ws_handle& wh, wsrep::high_priority_service* svc)
    {
        H* h = use(wh, "replay");
        VCHECK("C10", h->phase == H::MustReplay, "%s: replay of transaction %llu in provider phase %d", n.name.c_str(), (unsigned long long)h->tid, (int)h->phase);
        VCHECK("C10 C03", !h->rec->client->own.active, "%s: replay of transaction %llu before its rollback", n.name.c_str(), (unsigned long long)h->tid);
        ++h->rec->replays;
        VCHECK("C10", h->rec->replays == 1, "transaction replayed twice");
        label("replay");
        h->phase = H::Replaying;
        Event& e = g->ev(h->seqno);
        seq_t s = h->seqno;
        wait_for("replay turn", [this, &e] { return last_left >= e.depends; });
        if (!e.cert_ok)
        {
            h->phase = H::Aborting;
            h->must_leave = true;
            return error_certification_failed;
        }
        wsrep::ws_meta meta(gt(s), wsrep::stid(e.sid, wsrep::transaction_id(e.tid), wsrep::client_id(e.cid)), wsrep::seqno(e.depends), e.flags);
        seq_t keep = n.busy_seqno;
        (void)keep;
        int err = svc->apply(wh, meta, wsrep::const_buffer(e.data.data(), e.data.size()));
        if (err) { fail("C10 C19", "%s: replay of %lld failed with %d", n.name.c_str(), s, err); }
        VCHECK("C10 C01", last_left >= s, "%s: replay of %lld did not consume its position", n.name.c_str(), s);
        return success;
    }
    S_t Prov::enter_toi(wsrep::client_id cid, const wsrep::key_array& keys, const wsrep::const_buffer& b, wsrep::ws_meta& meta, int flags)
    {
        yield();
        if (!n.can_replicate()) return error_connection_failed;
        Event* e = new Event;
        e->kind = Event::TOI; e->origin = &n; e->flags = flags | F::isolation; e->sid = n.sid; e->cid = cid.get();
        e->data.assign(b.data(), b.size());
        (void)keys;
        seq_t s = g->order(e);
        meta = wsrep::ws_meta(gt(s), wsrep::stid(n.sid, wsrep::transaction_id::undefined(), cid), wsrep::seqno(s - 1), e->flags);
        wait_for("toi turn", [this, s] { return last_left == s - 1; });
        VCHECK("C01", inside < 0, "toi inside");
        inside = s;
        return success;
    }
    S_t Prov::leave_toi(wsrep::client_id, const wsrep::ws_meta& meta, const wsrep::mutable_buffer&)
    {
        seq_t s = meta.seqno().get();
        VCHECK("C15 C01", inside == s, "%s: TOI left with position %lld while %lld is inside", n.name.c_str(), s, inside);
        inside = -1;
        n.position = s;
        finish(s);
        yield();
        return success;
    }

    // ---- DBMS ----------------------------------------------------------
    std::string Node::value(Owner& o, int k)
    {
        auto i = o.overlay.find(k);
        if (i != o.overlay.end()) return i->second;
        auto j = rows.find(k);
        return j == rows.end() ? "0" : j->second;
    }
    void Node::unlock_all(Owner& o)
    {
        for (int k : o.locks) if (locks[k] == &o) locks.erase(k);
        o.locks.clear();
        ++o.epoch;
    }
    bool Node::lock_bf(Owner& o, int k)
    {
        for (int tries = 0;; ++tries)
        {
            Owner* h = locks.count(k) ? locks[k] : nullptr;
            if (!h || h == &o) { locks[k] = &o; o.locks.insert(k); o.mdl = true; return true; }
            trace("%s bf %lld wants row %d held by %s", name.c_str(), o.seqno, k, h->client ? h->client->name.c_str() : "applier");
            const long ep = h->epoch;
            if (h->client)
            {
                bf(h->client, o.seqno, false);
            }
            else if (h->lasting)
                fail("C25 C09 C07 C23", "%s: ordered write set %lld collides with a streaming transaction (%s) still open here on row %d", name.c_str(), o.seqno, h->hps ? h->hps->desc().c_str() : "?", k);
            yield();
            wait_for("row lock (bf)", [this, h, ep, k] { return h->epoch != ep || !locks.count(k) || locks[k] != h; });
        }
    }
    void Node::apply_fops(Owner& o)
    {
        for (auto& f : o.fops)
        {
            if (f.ins)
            {
                for (auto& x : frags) VCHECK("C08", !(x.sid == f.f.sid && x.tid == f.f.tid && x.seqno == f.f.seqno), "fragment stored twice");
                frags.push_back(f.f);
            }
            else
                frags.erase(std::remove_if(frags.begin(), frags.end(), [&](const Frag& x) { return x.sid == f.f.sid && x.tid == f.f.tid; }), frags.end());
        }
        o.fops.clear();
    }
    void Node::db_commit(Owner& o, const wsrep::id& sid, uint64_t tid, seq_t s, const char* via)
    {
        VCHECK("C01 C03", prov->inside == s, "%s: transaction %llu made committable outside of its commit order position %lld", name.c_str(), (unsigned long long)tid, s);
        for (auto& c : log)
        {
            VCHECK("C01 C02 C10 C25", !(c.sid == sid && c.tid == tid), "%s: transaction %llu committed twice", name.c_str(), (unsigned long long)tid);
        }
        VCHECK("C25 C01", log.empty() || log.back().seqno < s, "%s: commit of %lld after %lld", name.c_str(), s, log.back().seqno);
        for (auto& i : o.overlay) rows[i.first] = i.second;
        apply_fops(o);
        CommitRec r;
        r.sid = sid; r.tid = tid; r.data = o.pending; r.seqno = s; r.via = via;
        log.push_back(r);
        position = s;
        Rec* rec = g->rec(sid, tid);
        if (rec && rec->node == this && rec->sid == this->sid) ++rec->db_commits;
        trace("%s DB COMMIT %llu at %lld via %s '%s'", name.c_str(), (unsigned long long)tid, s, via, o.pending.c_str());
        o.overlay.clear(); o.pending.clear();
        unlock_all(o);
        o.active = false;
    }
    bool Node::can_replicate() const { return up && prim && !down && g->primary; }
    Client* Node::client(uint64_t cid)
    {
        for (auto c : clients) if (c->id().get() == cid) return c;
        return nullptr;
    }
    // Higher priority abort of a session's transaction.
    bool Node::bf(Client* v, seq_t s, bool to)
    {
        wsrep::unique_lock<wsrep::mutex> lock(v->mx);
        if (v->detaching) return false; // the session is handing its prepared transaction over
        if (!v->is_hp && v->mode() != wsrep::client_state::m_local) return false; // moved on to TOI meanwhile
        if (v->is_hp && !v->transaction().is_streaming()) return false; // already committed, about to release its locks
        const TS st = v->transaction().state();
        const bool active = v->transaction().active();
        const uint64_t tid = active ? v->transaction().id().get() : 0;
        const CS cst = v->state();
        const bool idle = cst == wsrep::client_state::s_idle;
        Rec* r = v->rec;
        prov->verdict.erase(current_id());
        H* h = active ? prov->find(tid) : nullptr;
        const bool inside = h && h->entered && !h->is_frag;
        v->bf_in_progress++;
        bool to_before = r && r->to_abort;
        if (to && r && active && st <= T::s_committing && st != T::s_prepared) r->to_abort = true; // corrected below
        // the client's own rollback is already under way: rollback message or not, either is fine
        if (to && r && ((st == T::s_certifying && !r->causes.empty()) || v->own_rollback())) r->to_race = true;
        int ret;
        bool with_lock = chance(1, 2) || true;
        (void)with_lock;
        ret = to ? v->total_order_bf_abort(lock, wsrep::seqno(s)) : v->bf_abort(lock, wsrep::seqno(s));
        v->bf_in_progress--;
        int verd = prov->verdict.count(current_id()) ? prov->verdict[current_id()] - 1 : -1;
        if (ret)
        {
            label(idle ? "idle session aborted" : "running session aborted");
            VCHECK("C03", active, "%s: abort of inactive transaction accepted", name.c_str());
            VCHECK("C03", st == T::s_executing || st == T::s_preparing || st == T::s_prepared || st == T::s_certifying || st == T::s_committing,
                   "%s: abort of transaction %llu accepted in state %d", name.c_str(), (unsigned long long)tid, (int)st);
            VCHECK("C03", verd == P::success, "%s: abort of transaction %llu accepted although provider said %d", name.c_str(), (unsigned long long)tid, verd);
            VCHECK("C03", !inside, "%s: abort of transaction %llu accepted inside commit order", name.c_str(), (unsigned long long)tid);
            if (r && r->tid == tid)
            {
                r->bf_accepted = true;
                if (idle) r->bf_idle = true;
                if (st == T::s_prepared && r->xa) { r->xa_bf = true; label(idle ? "prepared XA transaction aborted while idle" : "prepared XA transaction aborted"); }
                else if (st == T::s_preparing) label("abort while preparing");
                else if (st == T::s_committing) label("abort while committing");
            }
        }
        else
        {
            if (r) r->to_abort = to_before;
            const bool abortable = active && (st == T::s_executing || st == T::s_preparing || st == T::s_prepared || st == T::s_certifying || st == T::s_committing);
            VCHECK("C03", !abortable || verd > 0 || inside, "%s: abort of transaction %llu in state %d refused without reason", name.c_str(), (unsigned long long)tid, (int)st);
            VCHECK("C03", v->transaction().state() == st || !active, "%s: refused abort changed transaction state %d -> %d", name.c_str(), (int)st, (int)v->transaction().state());
        }
        VCHECK("C04", v->mx.mine(), "client mutex not held after bf_abort");
        trace("%s bf %s trx=%llu state=%d by %lld %s-> %d", name.c_str(), v->name.c_str(), (unsigned long long)tid, (int)st, s, to ? "TO " : "", ret);
        prov->promote_later(current_id());
        return ret;
    }
    void Node::toi(seq_t s, const std::string& data, Client* self)
    {
        toi_active = s;
        yield();
        for (;;)
        {
            bool busy = false;
            for (auto c : std::vector<Client*>(clients))
            {
                if (c == self || c->is_hp || !c->own.mdl || c->prepared_like()) continue;
                if (c->transaction().active())
                    bf(c, s, !g->ev(s).survive.count(std::make_pair(ids(sid), c->transaction().id().get())));
                busy = true;
            }
            for (auto h : std::vector<Hps*>(sas))
            {
                if (!h->own.mdl || h->dead || h->hc->transaction().state() == T::s_prepared) continue;
                if (h->standin) continue;
                bf(h->hc, s, true);
                busy = true;
            }
            if (!busy) break;
            wait_for("mdl", [this, self] {
                for (auto c : clients) if (c != self && !c->is_hp && c->own.mdl && !c->prepared_like()) return false;
                for (auto h : sas) if (h->own.mdl && !h->dead && !h->standin && h->hc->transaction().state() != T::s_prepared) return false;
                return true; });
        }
        for (auto& o : parse(data))
        {
            // rows of prepared XA transactions stay locked: leave them alone
            if (g->ev(s).skip.count(o.k)) continue;
            rows[o.k] = o.to;
        }
        toi_log.push_back(s);
        toi_active = -1;
    }
    std::string Node::fragdump() const
    {
        std::vector<std::string> v;
        for (auto& f : frags) v.push_back(strf("%s/%llu@%lld", hex(ids(f.sid)).substr(0, 16).c_str(), (unsigned long long)f.tid, f.seqno));
        std::sort(v.begin(), v.end());
        std::string r;
        for (auto& s : v) r += s + " ";
        return r;
    }

    // The DBMS removes the fragments which the transaction knows of
    void Node::known_fragments(const wsrep::transaction& t, const wsrep::id& sid, uint64_t tid)
    {
        auto& k = t.streaming_context().fragments();
        for (auto& f : frags) if (f.sid == sid && f.tid == tid && f.seqno >= 0)
            VCHECK("C08", std::find(k.begin(), k.end(), wsrep::seqno(f.seqno)) != k.end(), "%s: fragment %lld of transaction %llu is stored but the transaction does not know of it", name.c_str(), f.seqno, (unsigned long long)tid);
    }
    // ---- client service ------------------------------------------------
    bool CService::interrupted(wsrep::unique_lock<wsrep::mutex>& l) const
    {
        VCHECK("C04", l.owns_lock() && c->mx.mine(), "interrupted() called without lock");
        if (!c->killed && !c->is_hp && c->in_commitish && g->fault("interrupt"))
        {
            c->killed = true;
            if (c->rec) c->rec->cause("interrupt", wsrep::e_interrupted_error, 0);
        }
        return c->killed;
    }
    void CService::reset_globals() { c->n.set_ctx(nullptr); }
    void CService::store_globals() { c->n.set_ctx(c); }
    int CService::prepare_data_for_replication()
    {
        c->unlocked("prepare_data_for_replication");
        yield();
        if (!c->rec->xa_prepared && g->fault("prepare_data"))
        {
            c->rec->cause("prepare_data", wsrep::e_size_exceeded_error, P::error_size_exceeded);
            return 1;
        }
        std::string d = c->own.pending.substr(c->transaction().streaming_context().log_position());
        if (d.empty()) return 0;
        return c->append_data(wsrep::const_buffer(d.data(), d.size()));
    }
    void CService::cleanup_transaction()
    {
        if (!c->is_hp) VCHECK("C08 C11", c->n.get_ctx() == c, "%s: transaction cleaned up in a wrong thread context", c->name.c_str());
        // XA detach: the session forgets the transaction
        c->xa = Client::x_none;
        if (c->rec && !c->rec->ended) ++c->rec->cleanups;
    }
    bool CService::statement_allowed_for_streaming() const
    {
        c->rec->asked_allowed = true;
        if (g->fault("not_allowed_stmt"))
        {
            c->rec->cause("not_allowed_stmt", wsrep::e_error_during_commit, P::error_not_allowed);
            return false;
        }
        return true;
    }
    size_t CService::bytes_generated() const
    {
        const size_t lp = c->transaction().streaming_context().log_position();
        if (lp && !c->bytes_lost && !c->bytes_asked && !strcmp(c->cur_api, "after_row") && g->fault("bytes_lost"))
        {
            // the DBMS has lost track of the generated data
            c->bytes_lost = true;
            c->rec->cause("bytes_lost", 0, 0);
        }
        c->bytes_asked = true;
        return c->bytes_lost ? lp - 1 : c->own.pending.size();
    }
    int CService::prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos)
    {
        c->unlocked("prepare_fragment_for_replication");
        yield();
        if (g->fault("prepare_frag"))
        {
            c->rec->cause("prepare_frag", wsrep::e_error_during_commit, 0);
            return 1;
        }
        size_t lp = c->transaction().streaming_context().log_position();
        if ((!strcmp(c->cur_api, "after_row") || !strcmp(c->cur_api, "after_statement")) && g->fault("empty_frag"))
        {
            // nothing to replicate yet, the data comes with the next fragment
            c->empty_frag = true;
            for (uint32_t i = range(0, 3); i; --i) yield();
            pos = lp;
            return 0;
        }
        VCHECK("C06", lp == c->rec->streamed.size(), "log position %zu, %zu bytes have been replicated", lp, c->rec->streamed.size());
        std::string d = c->own.pending.substr(lp);
        b.push_back(d);
        pos = c->own.pending.size();
        return 0;
    }
    int CService::remove_fragments()
    {
        c->unlocked("remove_fragments");
        yield();
        if (c->transaction().state() != T::s_replaying && g->fault("remove_frags"))
        {
            c->rec->cause("remove_frags", wsrep::e_deadlock_error, 0);
            return 1;
        }
        c->n.known_fragments(c->transaction(), c->rec->sid, c->rec->tid);
        // Part of the transaction itself, or (failed replay) on its own
        FragOp f;
        f.ins = false;
        f.f.sid = c->rec->sid; f.f.tid = c->rec->tid;
        if (c->own.active) c->own.fops.push_back(f);
        else { Owner o; o.fops.push_back(f); c->n.apply_fops(o); }
        return 0;
    }
    int CService::bf_rollback()
    {
        c->unlocked("bf_rollback");
        yield();
        if (!c->own.active && !c->own.mdl) return 0;
        return c->do_rollback() ? 0 : 1;
    }
    void CService::emergency_shutdown()
    {
        ++c->emergencies;
        VCHECK("C05 C10", c->emergencies <= c->fatal_faults, "%s: emergency shutdown without a fatal provider failure", c->name.c_str());
    }
    void CService::will_replay()
    {
        ++c->will_replays;
        c->replay_over = false;
        ++c->n.replayers;
        VCHECK("C10", c->will_replays == c->replayed + 1, "will_replay called twice");
    }
    void CService::signal_replayed()
    {
        ++c->replayed;
        VCHECK("C10", c->replayed == c->will_replays, "signal_replayed without will_replay");
        VCHECK("C10", c->replay_over, "%s: waiters were told about the end of a replay which is not over", c->name.c_str());
        --c->n.replayers;
    }
    PS CService::replay()
    {
        c->unlocked("replay");
        VCHECK("C10", c->will_replays == c->replayed + 1, "%s: replay which was not announced", c->name.c_str());
        VCHECK("C10 C03", !c->own.active, "%s: replay asked before rollback", c->name.c_str());
        VCHECK("C10", c->transaction().state() == T::s_replaying, "replay in state %d", (int)c->transaction().state());
        Node& n = c->n;
        Hps* h = n.make_hps(true, c, false);
        h->hc->clone_transaction_for_replay(c->transaction());
        n.known_fragments(h->hc->transaction(), c->rec->sid, c->rec->tid);
        n.set_ctx(h->hc);
        PS st = n.prov->replay(h->hc->transaction().ws_handle(), h);
        h->after_apply();
        h->shutdown();
        n.set_ctx(c);
        trace("%s replay -> %d", c->name.c_str(), (int)st);
        if (st == P::success) c->xa = Client::x_none;
        c->replay_over = true;
        if (st == P::error_certification_failed) { label(c->rec->started_replicated ? "replay of streaming transaction found conflict" : "replay found conflict"); c->rec->replay_conflict = true; c->rec->cause("conflict", wsrep::e_deadlock_error, 0); }
        return st;
    }
    PS CService::replay_unordered()
    {
        c->unlocked("replay_unordered");
        VCHECK("C10 C11", c->will_replays == c->replayed + 1, "%s: replay which was not announced", c->name.c_str());
        label("XA replayed");
        Node& n = c->n;
        wsrep::high_priority_service* s = n.ss.find_streaming_applier(c->rec->sid, c->transaction().id());
        VCHECK("C11", s, "%s: no stand-in applier when prepared XA transaction is replayed", c->name.c_str());
        Hps* h = static_cast<Hps*>(s);
        n.set_ctx(nullptr);
        h->store_globals();
        h->own.active = true;
        h->own.seqno = n.prov->last_left + 1;
        std::vector<Frag> fs;
        for (auto& f : n.frags) if (f.sid == c->rec->sid && f.tid == c->rec->tid) fs.push_back(f);
        std::sort(fs.begin(), fs.end(), [](const Frag& a, const Frag& b) { return a.seqno < b.seqno; });
        VCHECK("C08 C11", !fs.empty(), "%s: fragments of prepared XA transaction are gone", c->name.c_str());
        for (auto& f : fs) h->apply_data(f.data);
        h->hc->restore_xid(c->rec->xid);
        h->standin = false;
        h->reset_globals();
        c->rec->xa_moved = true;
        c->xa = Client::x_none;
        c->replay_over = true;
        if (g->fault("replay_unordered")) { ++c->fatal_faults; return P::error_provider_failed; }
        return P::success;
    }
    void CService::wait_for_replayers(wsrep::unique_lock<wsrep::mutex>& l)
    {
        VCHECK("C04", l.owns_lock(), "wait_for_replayers without lock");
        c->asked_replayers = true;
        if (c->n.replayers <= 0) return;
        label("waited for replayer");
        l.unlock();
        Client* cc = c;
        wait_for("replayers", [cc] { return cc->n.replayers <= 0 || cc->transaction().state() == T::s_must_abort || cc->transaction().state() == T::s_must_replay; });
        l.lock();
    }
    PS CService::commit_by_xid()
    {
        c->unlocked("commit_by_xid");
        VCHECK("C11 C02", c->rec->xa_commit_asked, "%s: prepared XA transaction %llu is committed although nobody asked for it", c->name.c_str(), (unsigned long long)c->rec->tid);
        c->replay_over = false;
        Node& n = c->n;
        Client* t = new Client(n, wsrep::client_state::m_local, c->name + ".xid");
        n.clients.push_back(t);
        n.set_ctx(t);
        t->open(wsrep::client_id(g->next_cid++));
        t->before_command();
        Rec* r = c->rec;
        Rec* nr = n.new_rec(t);
        nr->by_xid = true;
        t->start_transaction(wsrep::transaction_id(nr->tid));
        if (chance(1, 2)) t->assign_xid(r->xid);
        t->by_sid = r->sid; t->by_tid = r->tid; t->by_commit = true;
        wait_for("XA identifier", [&n, r] { return !n.xid_busy.count(r); });
        int e = 1;
        if (n.has_sa(r))
        {
            n.xid_busy.insert(r);
            e = t->commit_by_xid(r->xid);
            n.xid_busy.erase(r);
        }
        else label("XA identifier decided by another node"); // the DBMS does not know the identifier any more
        PS st = e ? P::error_connection_failed : P::success;
        label(e ? "XA commit failed during replay" : "XA commit by identifier during replay");
        if (e) { t->before_rollback(); t->after_rollback(); }
        t->after_statement();
        t->after_command_before_result();
        t->after_command_after_result();
        t->close();
        t->cleanup();
        n.drop_client(t);
        n.set_ctx(c);
        if (!e) { r->by_xid_committed = r->own_xid_commit = true; wait_for("xa decision applied", [&n, r] { return n.decided(r) || !n.up; }); }
        c->replay_over = true;
        return st;
    }
    bool CService::is_explicit_xa() { return c->xa != Client::x_none; }
    bool CService::is_prepared_xa() { return c->xa == Client::x_prepared; }
    bool CService::is_xa_rollback() { return c->xa_rollback_stmt; }
    void CService::debug_sync(const char*) { if (!c->mx.mine() && !c->n.smx.mine()) yield(); }
    void CService::debug_crash(const char*) { if (!c->mx.mine() && !c->n.smx.mine()) yield(); }
    void CService::notify_state_change() { c->notified(); }

    // ---- client --------------------------------------------------------
    Client::Client(Node& nn, CM m, const std::string& nm)
        : ClientParts(), wsrep::client_state(mx, cv, nn.ss, svc, wsrep::client_id(wsrep::client_id::undefined()), m), n(nn)
    {
        svc.c = this;
        name = nm;
        is_hp = m == wsrep::client_state::m_high_priority;
        ann_t = T::s_executing; ann_c = 0; ann_m = m;
        own.node = &n;
        if (!is_hp) own.client = this;
    }
    void Client::notified()
    {
        const int t = transaction().state(), s = state(), m = mode();
        const bool act = transaction().active();
        const uint64_t tid = act ? transaction().id().get() : (uint64_t)-1;
        if (s != ann_c)
        {
            VCHECK("C04", cl_allowed[ann_c][s] == '1', "%s: session step %d -> %d is not allowed", name.c_str(), ann_c, s);
        }
        if (m != ann_m) VCHECK("C04", md_allowed[ann_m][m] == '1', "%s: mode step %d -> %d is not allowed", name.c_str(), ann_m, m);
        if (t != ann_t || (s == ann_c && m == ann_m && !mode_call))
        {
            bool reset = (t == T::s_executing || t == T::s_replaying) && act && (tid != ann_tid || ann_t == T::s_committed || ann_t == T::s_aborted);
            if (!reset && t != ann_t)
                VCHECK("C04", tx_allowed[ann_t][t] == '1', "%s: transaction %llu step %d -> %d is not allowed", name.c_str(), (unsigned long long)tid, ann_t, t);
            if (act) ann_tid = tid;
        }
        if (t == T::s_must_abort && rec && !is_hp) { }
        ann_t = t; ann_c = s; ann_m = m;
        mix((uint64_t)(t * 64 + s * 8 + m));
    }
    void Client::unlocked(const char* what)
    {
        VCHECK("C04 C26", !mx.mine() && !n.smx.mine(), "%s: %s called with a mutex held", name.c_str(), what);
        VCHECK("C08", n.get_ctx() == this, "%s: %s called in a foreign thread context", name.c_str(), what);
    }
    template <class Fn> int Client::api(const char* what, Fn fn)
    {
        yield();
        api_stamp = n.prov->stamp;
        n.prov->promote(current_id());
        api_stamp = n.prov->stamp;
        trace("%s > %s [t=%d c=%d]", name.c_str(), what, (int)transaction().state(), (int)state());
        cur_api = what;
        asked_replayers = bytes_asked = false;
        killed_before = killed;
        api_fiber = current_id();
        int r = fn();
        api_fiber = -1;
        cur_api = "";
        trace("%s < %s = %d [t=%d c=%d err=%d]", name.c_str(), what, r, (int)transaction().state(), (int)state(), (int)current_error());
        post(what);
        return r;
    }
    void Client::post(const char* what)
    {
        n.prov->promote(current_id());
        VCHECK("C04 C26", !mx.mine(), "%s: %s returned with client mutex held", name.c_str(), what);
        VCHECK("C04 C26", !n.smx.mine(), "%s: %s returned with server mutex held", name.c_str(), what);
        if (state() != wsrep::client_state::s_idle && state() != wsrep::client_state::s_none)
            VCHECK("C08", n.get_ctx() == this, "%s: thread context not restored by %s", name.c_str(), what);
        VCHECK("C04", ann_t == (int)transaction().state() || !transaction().active() || bf_in_progress, "%s: %s changed transaction state to %d without announcing", name.c_str(), what, (int)transaction().state());
        VCHECK("C04", ann_c == (int)state() && ann_m == (int)mode(), "%s: %s changed session state without announcing", name.c_str(), what);
    }
    void Client::db_rollback()
    {
        own.overlay.clear();
        own.pending.clear();
        own.fops.clear();
        n.unlock_all(own);
        own.active = false;
        trace("%s DB ROLLBACK", name.c_str());
    }
    bool Client::do_rollback()
    {
        int r = before_rollback();
        yield();
        if (own.active) { db_rollback(); }
        yield();
        int r2 = after_rollback();
        own.mdl = false;
        if (xa == x_active || xa == x_prepared)
        {
            // aborted underneath: XA transaction is rollback only
            if (transaction().state() == T::s_aborted) xa = x_rollback_only;
        }
        if (r || r2) fail("C05 C04", "%s: rollback failed", name.c_str());
        return true;
    }
    Rec* Node::new_rec(Client* c)
    {
        Rec* r = new Rec;
        r->sid = sid; r->tid = g->next_tid++; r->client = c; r->node = this;
        g->recs[key_of(sid, r->tid)] = r;
        g->rec_list.push_back(r);
        g->tids[r->tid] = r;
        return r;
    }
    void Node::drop_client(Client* c) { clients.erase(std::remove(clients.begin(), clients.end(), c), clients.end()); }
    bool Node::decided(Rec* r)
    {
        return prov->last_left >= r->decision_seqno();
    }
    seq_t Rec::decision_seqno() const
    {
        for (auto e : g->log) if (e->kind == Event::WS && e->sid == sid && e->tid == tid && e->cert_ok && (e->flags & (F::commit | F::rollback))) return e->seqno;
        return 1LL << 60;
    }
    bool Client::prepared_like() const
    {
        return transaction().active() && (transaction().state() == T::s_prepared || xa == x_prepared);
    }
    void Client::start_trx(bool is_xa)
    {
        wait_for("toi", [this] { return n.toi_active < 0; });
        rec = n.new_rec(this);
        own_tid = rec->tid;
        own.active = true;
        own.pending.clear(); own.overlay.clear(); own.fops.clear();
        want_implicit = false;
        pos_given = -1;
        api("start_transaction", [this] { return start_transaction(wsrep::transaction_id(rec->tid)); });
        if (chance(1, 6))
        {
            api_refused = false;
            int e = api("assign_read_view", [this] { return assign_read_view(nullptr); });
            VCHECK("C05", !e == !api_refused, "%s: assign_read_view() returned %d although the provider %s", name.c_str(), e, api_refused ? "refused" : "accepted");
        }
        if (chance(1, 10)) { transaction_implicit(true); want_implicit = true; }
        if (is_xa)
        {
            std::string x = "x" + std::to_string(rec->tid) + "n" + std::to_string(n.inc);
            rec->xa = true;
            rec->xid = mkxid(x);
            xa = x_active;
            own.pending = "X" + x + ";";
            rec->data = own.pending;
            api("assign_xid", [this] { assign_xid(rec->xid); return 0; });
        }
        counter = 0;
        mix(rec->tid);
    }
    void Client::transaction_implicit(bool v) { const_cast<wsrep::transaction&>(transaction()).implicit_deps(v); }
    bool Client::doomed() const { TS s = transaction().state(); return !(s == T::s_executing) || !transaction().active(); }
    // One row change; false: the statement must stop
    bool Client::write_row(int k)
    {
        for (;;)
        {
            wait_for("toi", [this] { return n.toi_active < 0 || doomed(); });
            if (doomed()) return false;
            Owner* h = n.locks.count(k) ? n.locks[k] : nullptr;
            if (!h || h == &own) { n.locks[k] = &own; own.locks.insert(k); own.mdl = true; break; }
            if (h->client || h->lasting) { dbms_error = true; label("row lock conflict"); return false; }
            long ep = h->epoch;
            wait_for("row lock", [this, h, ep] { return h->epoch != ep || doomed(); });
        }
        std::set<int> ks; ks.insert(k);
        std::vector<std::string> hold;
        wsrep::key_array ka = keys_of(ks, hold);
        rec->keys.insert(k);
        api_refused = false;
        int e = chance(1, 2) ? api("append_key", [&] { return append_key(ka[0]); }) : api("append_keys", [&] { return append_keys(ka); });
        VCHECK("C05", !e == !api_refused, "%s: adding a key returned %d although the provider %s", name.c_str(), e, api_refused ? "refused" : "accepted");
        if (e) { dbms_error = true; return false; }
        yield();
        if (doomed()) return false;
        std::string nv = std::to_string(g->next_val++);
        if (chance(1, 8)) nv += std::string(1 + draw(30), 'x');
        std::string op = "W" + std::to_string(k) + ":" + n.value(own, k) + ">" + nv + ";";
        own.overlay[k] = nv;
        own.pending += op;
        rec->data += op;
        rec->empty = false;
        frag_expected = expect_row();
        int fc = frag_calls;
        in_commitish = true;
        e = api("after_row", [this] { return after_row(); });
        in_commitish = false;
        if (bytes_lost)
        {
            bytes_lost = false;
            VCHECK("C06 C05", e, "%s: row accepted although the DBMS has less data than was replicated", name.c_str());
            VCHECK("C06", frag_calls == fc, "%s: fragment replicated although the DBMS has less data than was replicated", name.c_str());
            dbms_error = true;
            frag_expected = false;
            counter = 0;
        }
        check_fragment("row", fc, e);
        if (e && unprovoked(rec)) fail("C05 C06", "%s: operation after a row failed without a reason", name.c_str());
        return e == 0;
    }
    void Client::check_fragment(const char* what, int before, int err)
    {
        bool exp = frag_expected;
        frag_expected = false;
        if (exp) counter = 0;
        VCHECK("C06", exp || frag_calls == before, "fragment after %s", what);
        if (empty_frag)
        {
            empty_frag = false;
            VCHECK("C06", frag_calls == before, "%s: fragment without data replicated after %s", name.c_str(), what);
        }
        else if (exp && !err && !rec->bf_accepted)
            VCHECK("C06", frag_calls == before + 1, "%s: no fragment after %s although the threshold is reached (unit %d size %zu)", name.c_str(), what, unit, fsize);
    }
    bool Client::expect_row()
    {
        if (!fsize || unit == wsrep::streaming_context::statement) return false;
        size_t todo = own.pending.size() - rec->streamed.size();
        if (unit == wsrep::streaming_context::row) ++counter; else counter = todo;
        if (!todo) return false;
        return counter >= fsize;
    }
    bool Client::expect_stmt()
    {
        if (!fsize || unit != wsrep::streaming_context::statement) return false;
        if (!transaction().active() || transaction().state() != T::s_executing) return false;
        size_t todo = own.pending.size() - rec->streamed.size();
        ++counter;
        if (!todo) return false;
        return counter >= fsize;
    }
    // 0: committed; otherwise the statement fails
    int Client::do_commit()
    {
        if (rec->empty && !rec->xa)
        {
            label("empty transaction");
            if (api("before_rollback", [this] { return before_rollback(); })) fail("C05 C04", "%s: before_rollback failed", name.c_str());
            db_rollback();
            if (api("after_rollback", [this] { return after_rollback(); })) fail("C05 C04", "%s: after_rollback failed", name.c_str());
            own.mdl = false;
            rec->empty_commit = true;
            return 0;
        }
        if (!killed && g->fault("kill"))
        {
            killed = true;
            rec->cause("interrupt", wsrep::e_interrupted_error, 0);
        }
        in_commitish = true;
        int e = 0;
        if (g->cfg.twopc && xa != x_prepared && chance(1, 2))
        {
            e = api("before_prepare", [this] { return before_prepare(); });
            yield();
            if (!e) went_on("before_prepare");
            if (!e) linger(6);
            if (!e) e = api("after_prepare", [this] { return after_prepare(); });
            if (!e) went_on("after_prepare");
            if (!e) linger(6);
        }
        if (xa == x_prepared) { rec->xa_commit_asked = true; linger(5); }
        seq_cb_called = 0;
        static wsrep::provider::seq_cb_t cb = { nullptr, nullptr };
        if (!e) e = api("before_commit", [this] { return before_commit(chance(1, 4) ? &cb : nullptr); });
        in_commitish = false;
        if (!e) went_on("before_commit");
        if (e)
        {
            label("commit failed");
            VCHECK("C05 C02", current_error() != wsrep::e_success || transaction().state() == T::s_must_replay, "%s: commit of transaction %llu failed in state %d without an error", name.c_str(), (unsigned long long)rec->tid, (int)transaction().state());
            if (unprovoked(rec)) fail("C05 C06", "%s: commit of transaction %llu failed without a reason, error %d", name.c_str(), (unsigned long long)rec->tid, (int)current_error());
            return 1;
        }
        VCHECK("C01 C03", transaction().state() == T::s_committing, "%s: before_commit succeeded in state %d", name.c_str(), (int)transaction().state());
        H* h = n.prov->find(rec->tid);
        VCHECK("C01", h && h->phase == H::Certified && !h->is_frag && h->entered, "%s: before_commit succeeded without commit order", name.c_str());
        VCHECK("C03", !rec->bf_accepted || (rec->xa && !h->aborted), "%s: transaction %llu proceeds to commit after an accepted abort", name.c_str(), (unsigned long long)rec->tid);
        yield();
        n.db_commit(own, rec->sid, rec->tid, h->seqno, "local");
        rec->acked_data = rec->committing_data;
        yield();
        e = api("ordered_commit", [this] { return ordered_commit(); });
        VCHECK("C01", !e && h->left, "%s: ordered_commit did not leave commit order", name.c_str());
        e = api("after_commit", [this] { return after_commit(); });
        VCHECK("C01 C02", !e && transaction().state() == T::s_committed, "%s: after_commit failed", name.c_str());
        own.mdl = false;
        if (xa == x_prepared) xa = x_none;
        return 0;
    }
    // A step towards commit or XA prepare succeeded: nothing may have failed on the way
    void Client::went_on(const char* what)
    {
        VCHECK("C05 C02", current_error() == wsrep::e_success, "%s: %s of transaction %llu succeeded with error %d", name.c_str(), what, (unsigned long long)rec->tid, (int)current_error());
        for (auto f : { "append_key", "append_data", "prepare_data", "prepare_frag", "not_allowed_stmt", "remove_frags" })
            VCHECK("C05 C02", !rec->has_cause(f), "%s: %s of transaction %llu succeeded although '%s' failed", name.c_str(), what, (unsigned long long)rec->tid, f);
    }
    void Client::after_commit_failure()
    {
        TS s = transaction().state();
        if (!transaction().active() || s == T::s_prepared) return;
        if (s == T::s_must_replay || chance(1, 2))
        {
            if (own.active || own.mdl) api_rollback();
        }
    }
    void Client::api_rollback()
    {
        if (api("before_rollback", [this] { return before_rollback(); })) fail("C05 C04", "%s: before_rollback failed", name.c_str());
        yield();
        if (own.active) db_rollback();
        yield();
        if (api("after_rollback", [this] { return after_rollback(); })) fail("C05 C04", "%s: after_rollback failed", name.c_str());
        own.mdl = false;
        if (xa == x_active || xa == x_prepared)
        {
            if (transaction().state() == T::s_aborted) xa = x_rollback_only;
        }
    }
    int Client::statement(std::function<void()> body)
    {
        if (api("before_statement", [this] { return before_statement(); }))
        {
            label("before_statement error");
            if (chance(1, 2)) return 1;
        }
        else body();
        frag_expected = expect_stmt();
        int fc = frag_calls;
        in_commitish = true;
        if (transaction().active())
            VCHECK("C06", transaction().fragments_certified_for_statement() == stmt_certified, "%s: %zu write sets of the statement are certified, the transaction counts %zu", name.c_str(), stmt_certified, (size_t)transaction().fragments_certified_for_statement());
        int e = api("after_statement", [this] { return after_statement(); });
        stmt_certified = 0;
        in_commitish = false;
        check_fragment("statement", fc, e || current_error() != wsrep::e_success);
        VCHECK("C02", (e != 0) == (current_error() == wsrep::e_deadlock_error), "%s: after_statement returned %d with error %d", name.c_str(), e, (int)current_error());
        if (e == 0 && transaction().active() && transaction().state() == T::s_executing)
            VCHECK("C06", transaction().fragments_certified_for_statement() == 0, "statement fragment counter not reset");
        return e;
    }
    void Client::finish_rec(Rec* r, int err, int status)
    {
        if (!r || r->ended) return;
        r->ended = true;
        TS s = transaction().state();
        trace("%s END trx %llu err=%d status=%d state=%d", name.c_str(), (unsigned long long)r->tid, err, status, (int)s);
        VCHECK("C02", !own.active, "%s: transaction %llu ended but DBMS transaction is open", name.c_str(), (unsigned long long)r->tid);
        bool committed = r->db_commits > 0 || r->by_xid_committed;
        // handed over: another session may decide it before this one reports
        if (r->xa_moved && (!committed || (r->decisions && !r->own_xid_commit))) { r->ack = a_xa_moved; }
        else if (r->empty_commit) r->ack = a_ok;
        else if (err == wsrep::e_success && !r->client_rollback && !dbms_error && !(r->not_xa_rb && !committed))
        {
            VCHECK("C02 C10 C13", committed, "%s: transaction %llu reported as successful but it is not committed", name.c_str(), (unsigned long long)r->tid);
            r->ack = a_ok;
        }
        else
        {
            VCHECK("C02 C10", !committed, "%s: transaction %llu is committed but the client got error %d", name.c_str(), (unsigned long long)r->tid, err);
            r->ack = r->client_rollback ? a_client_rollback : a_err;
        }
        if (!r->by_xid)
        VCHECK("C12", !n.prov->find(r->tid), "%s: provider handle of transaction %llu was not released", name.c_str(), (unsigned long long)r->tid);
        if (!r->by_xid)
        VCHECK("C12", r->releases == 1 || (r->xa && r->releases > 0), "%s: provider handle of transaction %llu released %d times", name.c_str(), (unsigned long long)r->tid, r->releases);
        VCHECK("C02 C12", r->cleanups > 0, "%s: the DBMS was not told to clean up after transaction %llu", name.c_str(), (unsigned long long)r->tid);
        VCHECK("C10", will_replays == replayed, "%s: waiters were not told about the end of replay", name.c_str());
        // C07
        bool rb_expected = !committed && r->frags_reached > 0 && !r->to_abort && !r->xa_moved;
        // aborted in total order while its rollback was already under way: either is fine
        if (r->xa && r->xa_prepared && !r->xa_decided_rollback) rb_expected = rb_expected && !committed;
        if (committed) VCHECK("C07", r->rb_first == 0, "%s: rollback message sent for committed transaction %llu", name.c_str(), (unsigned long long)r->tid);
        else if (rb_expected && !r->replay_conflict) VCHECK("C07", r->rb_first == 1, "%s: streaming transaction %llu rolled back with %d rollback messages", name.c_str(), (unsigned long long)r->tid, r->rb_first);
        // C05
        if (r->causes.size() == 1 && !r->bf_accepted && !dbms_error && !r->client_rollback && !r->xa && r->causes[0].error > 0)
        {
            auto& c = r->causes[0];
            label("single failure cause");
            VCHECK("C05 C02", err == c.error, "%s: failure '%s' ended with client error %d, expected %d", name.c_str(), c.what.c_str(), err, c.error);
            VCHECK("C05", status == c.status, "%s: failure '%s' ended with provider status %d, expected %d", name.c_str(), c.what.c_str(), status, c.status);
        }
        if (err != wsrep::e_success && !committed && !r->xa_moved && !r->client_rollback && !dbms_error && !r->not_xa_rb)
            VCHECK("C05", !unprovoked(r), "%s: transaction %llu failed with error %d although nothing went wrong", name.c_str(), (unsigned long long)r->tid, err);
        // (what the provider reports because of the abort is not another cause)
        bool only_bf = true;
        for (auto& k : r->causes) only_bf = only_bf && k.what == "bf";
        if (r->bf_accepted && !committed && !r->client_rollback && !r->xa && only_bf && !dbms_error && !(r->to_race && err == wsrep::e_error_during_commit))
            VCHECK("C03 C05 C13", err == wsrep::e_deadlock_error, "%s: aborted transaction %llu ended with error %d", name.c_str(), (unsigned long long)r->tid, err);
        // C14
        if (pos_given > 0) expect_lw = gt(pos_given);
        VCHECK("C14", last_written_gtid() == expect_lw, "%s: last written position is %lld, expected %lld", name.c_str(), last_written_gtid().seqno().get(), expect_lw.seqno().get());
        if (emergencies != fatal_faults) fail("C05", "%s: fatal provider failure without emergency shutdown", name.c_str());
    }
    // A transaction may wait for the killer to strike
    void Client::linger(int aim)
    {
        if (g->killer_aim != aim || g->killer_node != &n || (aim == 5 && !g->cfg.xa_kills) || transaction().state() == T::s_must_abort || !chance(1, 2)) return;
        if (aim != 5 && prepared_like() && !g->cfg.xa_kills) return;
        wait_for("session waits for killer", [this, aim] { return g->killer_aim != aim || transaction().state() == T::s_must_abort || !n.up || n.down || n.partitioned; });
    }
    // Nothing happened to the transaction which could make an operation of it fail
    bool Client::unprovoked(Rec* r)
    {
        return r && r->causes.empty() && !r->bf_accepted && !r->bf_idle && !r->to_abort && !r->server_disconnected && !r->connection_lost && !bf_in_progress && !killed && !r->disturbed;
    }
    // A command from the client. Returns the error the client sees.
    int Client::command(std::function<void()> body, bool keep)
    {
        dbms_error = false;
        killed = false;
        for (uint32_t i = range(0, 3); i; --i) yield();
        Rec* r = rec && !rec->ended ? rec : nullptr;
        const bool accepted = r && r->bf_accepted && transaction().active();
        const bool xatrx = r && r->xa;
        if (chance(1, 6)) { api("wait_rollback", [this] { wait_rollback_complete_and_acquire_ownership(); n.set_ctx(this); return 0; }); }
        int e = api("before_command", [&] { return before_command(keep); });
        bool run = false;
        if (e)
        {
            wait_for("aborter returned", [this] { return !bf_in_progress; });
            label("command failed at start");
            VCHECK("C13 C02", r && (r->bf_accepted || bf_in_progress || (xatrx && xa == x_rollback_only)), "%s: before_command failed without an abort", name.c_str());
            if (!xatrx)
            {
                VCHECK("C13", current_error() == wsrep::e_deadlock_error, "%s: before_command failed with error %d", name.c_str(), (int)current_error());
                VCHECK("C13", !transaction().active(), "%s: transaction still open after failed before_command", name.c_str());
                VCHECK("C13", !own.active, "%s: before_command returned before rollback", name.c_str());
            }
            else if (xa == x_rollback_only && chance(3, 4))
            {
                // XA ROLLBACK of an aborted transaction
                label("XA rollback after abort");
                xa_rollback_stmt = true;
                if (!r->ended) { r->client_rollback = true; }
                if (transaction().state() == T::s_must_abort) api_rollback();
                xa = x_none;
                api("after_statement", [this] { return after_statement(); });
                xa_rollback_stmt = false;
            }
        }
        else
        {
            if (accepted && !xatrx && !keep) fail("C13 C03", "%s: command started normally although the transaction was aborted before", name.c_str());
            if (accepted && !xatrx && keep)
            {
                label("error kept for next command");
                VCHECK("C13", current_error() == wsrep::e_deadlock_error, "%s: kept error lost", name.c_str());
            }
            else if (keep) label("keep error command");
            VCHECK("C13", keep || !(r && r->bf_accepted && !transaction().active() && !r->ended && current_error() == wsrep::e_success && r->db_commits == 0 && !r->xa_moved && !r->by_xid_committed), "%s: abort was never reported", name.c_str());
            if (!keep) { run = true; body(); }
        }
        (void)run;
        api("after_command_before_result", [this] { after_command_before_result(); return 0; });
        const int err = current_error(), st = current_error_status();
        Rec* cur = rec && !rec->ended ? rec : nullptr;
        if (cur && cur->xa_prepared && xa == x_prepared && err == wsrep::e_success && transaction().active()) cur->xa_acked = true;
        if (cur && !transaction().active()) finish_rec(cur, err, st);
        if (cur && transaction().active() && err != wsrep::e_success && transaction().state() == T::s_executing)
            fail("C02 C05", "%s: error %d but transaction %llu is still open", name.c_str(), err, (unsigned long long)cur->tid);
        if (cur && cur->bf_accepted && !cur->ended && transaction().active() && transaction().state() == T::s_executing)
            fail("C03", "%s: aborted transaction %llu is executing", name.c_str(), (unsigned long long)cur->tid);
        api("after_command_after_result", [this] { after_command_after_result(); return 0; });
        n.set_ctx(nullptr);
        if (!transaction().active() && !keep && !(cur && cur->bf_accepted && !cur->ended))
            VCHECK("C13 C02", current_error() == wsrep::e_success, "%s: error %d left over for the next command", name.c_str(), (int)current_error());
        if (cur && !cur->ended && !transaction().active())
        {
            // XA transaction replayed between result and idle
            if (cur->xa_moved) finish_rec(cur, wsrep::e_success, 0);
        }
        return err;
    }
    int Client::streaming_setting()
    {
        // set fragment unit and size
        int u = (int)draw(3);
        size_t sz = 0;
        if (chance(3, 4)) sz = u == wsrep::streaming_context::bytes ? 1 + draw(40) : 1 + draw(3);
        if (chance(1, 2))
        {
            int e = enable_streaming((enum wsrep::streaming_context::fragment_unit)u, sz ? sz : 1);
            bool streaming = transaction().active() && transaction().is_streaming();
            VCHECK("C06", (e != 0) == (streaming && u != unit), "enable_streaming returned %d", e);
            if (!e) { unit = u; fsize = sz ? sz : 1; }
        }
        else if (!(transaction().active() && transaction().is_streaming()))
        {
            streaming_params((enum wsrep::streaming_context::fragment_unit)u, sz);
            unit = u; fsize = sz; counter = 0;
        }
        return 0;
    }
    void Client::write_some(int lo, int hi)
    {
        uint32_t k = (uint32_t)lo + draw((uint32_t)(hi - lo + 1));
        for (uint32_t i = 0; i < k; ++i)
        {
            if (!write_row((int)draw((uint32_t)g->cfg.rows)))
            {
                // statement failed
                if (transaction().state() == T::s_executing && dbms_error)
                {
                    // DBMS error: roll back the whole transaction or just stop
                    if (chance(1, 2) || rec->keys_dangling()) { rec->client_rollback = true; api_rollback(); }
                    else { dbms_error = false; }
                }
                else if (chance(1, 2) && (own.active) && transaction().active() && transaction().state() != T::s_executing) { api_rollback(); }
                return;
            }
        }
    }
    // Let the next disruption happen in the middle of the transaction
    void Client::think(uint32_t n_, uint32_t of)
    {
        if (!g->cfg.disruptions || g->calm || !chance(n_, of)) return;
        const unsigned d = g->disrupted;
        wait_for("client thinks", [this, d] { return g->calm || g->disrupted != d || !transaction().active() || transaction().state() != T::s_executing; });
    }
    void Client::one_transaction()
    {
        if (g->cfg.streaming && chance(2, 3)) { want_setting = true; }
        const bool is_xa = g->cfg.xa && chance(2, 3);
        if (!is_xa && chance(1, 3))
        {
            // autocommit
            command([this] {
                if (want_setting) { want_setting = false; streaming_setting(); }
                statement([this] {
                    start_trx(false);
                    write_some(chance(1, 10) ? 0 : 1, 3);
                    if (transaction().active() && transaction().state() == T::s_executing && own.active)
                    { if (do_commit()) after_commit_failure(); }
                    else if (own.active && transaction().active() && chance(1, 2) && transaction().state() != T::s_aborted) api_rollback();
                });
            }, false);
            return;
        }
        // BEGIN (alone, or with first statement)
        int cmds = 1 + (int)draw(3);
        bool begun = false;
        for (int i = 0; i < cmds; ++i)
        {
            command([&] {
                if (want_setting) { want_setting = false; streaming_setting(); }
                int st = 1 + (int)range(0, 1);
                for (int j = 0; j < st; ++j)
                {
                    int e = statement([&] {
                        if (!begun) { begun = true; start_trx(is_xa); if (chance(1, 4)) return; }
                        if (own.active && transaction().state() == T::s_executing) write_some(0, 3);
                    });
                    if (e || !transaction().active()) break;
                    think(1, 8);
                }
            }, false);
            think(1, 3);
            if (!transaction().active() || transaction().state() != T::s_executing) break;
            if (chance(1, 10)) command([] { }, true);
            if (g->cfg.streaming && chance(1, 10)) want_setting = true;
        }
        if (!begun) return;
        if (is_xa) { xa_end(); return; }
        for (int tries = 0; transaction().active() && tries < 4; ++tries)
        {
            if (g->cfg.close_mid && chance(1, 8)) return; // session closes with open transaction
            bool commit = chance(4, 5);
            command([&] {
                statement([&] {
                    if (!own.active || transaction().state() != T::s_executing) return;
                    if (commit) { if (do_commit()) after_commit_failure(); }
                    else { rec->client_rollback = true; label("client rollback"); api_rollback(); }
                });
            }, false);
        }
    }
    void Client::xa_end()
    {
        for (int tries = 0; transaction().active() && tries < 12; ++tries)
        {
            // Stay prepared until the killer has struck
            if (xa == x_prepared && g->cfg.xa_kills && g->killer_node == &n && g->killer_aim == 3 && chance(2, 3))
                wait_for("prepared session thinks", [this] { return g->killer_aim != 3 || transaction().state() != T::s_prepared; });
            if (xa == x_prepared && g->cfg.close_mid && chance(1, 4)) return;
            if (xa == x_active && g->cfg.close_mid && chance(1, 10)) return;
            if (xa == x_active)
            {
                if (chance(1, 6))
                    command([&] { statement([&] { if (own.active && transaction().state() == T::s_executing) { rec->client_rollback = true; api_rollback(); xa = x_none; } }); }, false);
                else
                    command([&] { statement([&] { xa_prepare(); }); }, false);
            }
            else if (xa == x_prepared)
            {
                bool commit = chance(3, 4);
                command([&] {
                    statement([&] {
                        if (xa != x_prepared || !own.active) return;
                        if (commit)
                        {
                            if (transaction().state() != T::s_prepared && transaction().state() != T::s_must_abort) return;
                            label("XA commit");
                            if (do_commit()) { label("XA commit failed"); after_commit_failure(); }
                        }
                        else
                        {
                            if (transaction().state() != T::s_prepared) return;
                            label("XA rollback");
                            rec->xa_decided_rollback = true;
                            rec->client_rollback = true;
                            xa_rollback_stmt = true;
                            api_rollback();
                            xa = x_none;
                        }
                    });
                    xa_rollback_stmt = false;
                }, false);
                xa_rollback_stmt = false;
            }
            else
                command([&] { }, false);
        }
        if (rec && rec->xa && !rec->ended && !transaction().active()) finish_rec(rec, wsrep::e_success, 0);
    }
    void Client::xa_prepare()
    {
        if (!own.active || transaction().state() != T::s_executing) return;
        own.pending += "P;";
        rec->data += "P;";
        preparing = true;
        frag_expected = true;
        in_commitish = true;
        int e = api("before_prepare", [this] { return before_prepare(); });
        frag_expected = false;
        preparing = false;
        counter = 0;
        yield();
        if (!e) went_on("before_prepare");
        if (!e) linger(6);
        if (!e) e = api("after_prepare", [this] { return after_prepare(); });
        if (!e) went_on("after_prepare");
        in_commitish = false;
        if (e)
        {
            label("XA prepare failed");
            VCHECK("C05 C11", current_error() != wsrep::e_success || transaction().state() == T::s_must_replay, "%s: XA prepare of transaction %llu failed in state %d without an error", name.c_str(), (unsigned long long)rec->tid, (int)transaction().state());
            if (unprovoked(rec)) fail("C05 C11", "%s: XA prepare of transaction %llu failed without a reason, error %d", name.c_str(), (unsigned long long)rec->tid, (int)current_error());
            if (transaction().active() && own.active && chance(1, 2)) api_rollback();
            return;
        }
        VCHECK("C11", transaction().state() == T::s_prepared || rec->bf_accepted, "%s: XA prepare succeeded in state %d", name.c_str(), (int)transaction().state());
        label("XA prepared");
        rec->xa_prepared = true;
        rec->not_xa_rb = true;
        xa = x_prepared;
    }
    void Client::session()
    {
        n.set_ctx(this);
        open(wsrep::client_id(g->next_cid++));
        expect_lw = wsrep::gtid::undefined();
        VCHECK("C14", last_written_gtid().is_undefined(), "last written position of a new session");
        n.set_ctx(nullptr);
        for (int t = 0; t < g->cfg.trxs; ++t)
        {
            if (!n.up) break;
            if (transaction().active())
            {
                break;
            }
            if (g->cfg.toi && chance(1, 6)) { run_toi(); continue; }
            if (g->cfg.xa && chance(1, 4) && by_xid_some()) continue;
            one_transaction();
        }
        for (uint32_t i = range(0, 3); i; --i) yield();
        n.set_ctx(this);
        Rec* r = rec && !rec->ended ? rec : nullptr;
        if (transaction().active()) label("session closed with open transaction");
        api("close", [this] { close(); return 0; });
        unit = 0; fsize = 0;
        if (transaction().active())
        {
            VCHECK("C11 C02 C13", xa == x_prepared && transaction().state() == T::s_prepared, "%s: transaction open after close in state %d", name.c_str(), (int)transaction().state());
            label("XA detached");
            detaching = true;
            r->detached = true;
            api("xa_detach", [this] { xa_detach(); return 0; });
            r->xa_moved = true;
            own.active = own.mdl = false;
            detaching = false;
        }
        if (r && !r->ended)
        {
            dbms_error = false;
            if (!r->xa_moved && r->db_commits == 0 && !r->by_xid_committed) { r->client_rollback = true; }
            finish_rec(r, current_error(), current_error_status());
        }
        VCHECK("C02 C12", !transaction().active(), "transaction active after session end");
        cleanup();
        n.set_ctx(nullptr);
        n.drop_client(this);
    }
    // The client has begun to roll back on its own account
    // (or is inside XA prepare: whether the others keep the prepared transaction is decided by the order, so that the rollback message may be needed)
    bool Client::own_rollback() const { return !strcmp(cur_api, "before_rollback") || !strcmp(cur_api, "close") || (rec && rec->xa && (preparing || rec->xa_prepared || transaction().state() == T::s_preparing)); }
    bool Client::by_xid_some()
    {
        std::vector<Rec*> c;
        for (auto r : g->rec_list)
            if (r->xa && r->xa_moved && r->xa_prepared && !r->decisions && g->sr.count(key_of(r->sid, r->tid)) && n.has_sa(r)) c.push_back(r);
        if (c.empty()) return false;
        Rec* t = pick(c);
        bool commit = chance(1, 2);
        label("decision by XA identifier");
        command([&] {
            statement([&] {
                // Somebody else may have decided meanwhile
                if (t->decisions || !n.has_sa(t)) return;
                Rec* r = n.new_rec(this);
                rec = r;
                own_tid = r->tid;
                r->by_xid = true; r->empty = true;
                pos_given = -1;
                api("start_transaction", [&] { return start_transaction(wsrep::transaction_id(r->tid)); });
                if (chance(1, 2)) assign_xid(t->xid);
                by_sid = t->sid; by_tid = t->tid; by_commit = commit;
                // The DBMS guards an identifier which is being decided until the decision is handed over
                bool none = false;
                int e = api("by_xid", [&] {
                    if (t->decisions || !n.has_sa(t)) { none = true; return 0; }
                    n.xid_busy.insert(t);
                    r->causes.clear(); return commit ? commit_by_xid(t->xid) : rollback_by_xid(t->xid); });
                if (none) { r->client_rollback = true; api_rollback(); return; }
                n.xid_busy.erase(t);
                if (e)
                {
                    label("decision by XA identifier failed");
                    VCHECK("C11 C05", current_error() == wsrep::e_error_during_commit, "%s: failed decision by identifier gives error %d", name.c_str(), (int)current_error());
                    api_rollback();
                    r->client_rollback = true;
                }
                else
                {
                    r->empty_commit = true;
                    VCHECK("C11", transaction().state() == (commit ? T::s_committed : T::s_aborted), "decision by identifier left state %d", (int)transaction().state());
                    wait_for("xa decision applied", [&] { return n.decided(t) || !n.up; });
                }
                if (commit && !e) { r->no_release = true; }
            });
        }, false);
        return true;
    }
    bool Node::has_sa(Rec* r)
    {
        if (xid_busy.count(r)) return false;
        if (busy_seqno > 0 && g->ev(busy_seqno).kind == Event::WS && g->ev(busy_seqno).tid == r->tid) return false; // being decided
        for (auto h : sas) if (!h->dead && h->hc->transaction().active() && h->hc->transaction().id().get() == r->tid && h->hc->transaction().server_id() == r->sid && h->hc->transaction().state() == T::s_prepared && !h->in_use) return true;
        return false;
    }
    void Client::run_toi()
    {
        label("TOI");
        command([this] {
            if (api("before_statement", [this] { return before_statement(); })) return;
            std::set<int> ks; ks.insert((int)draw((uint32_t)g->cfg.rows));
            std::vector<std::string> hold;
            wsrep::key_array ka = keys_of(ks, hold);
            std::string d = "W" + std::to_string(*ks.begin()) + ":*>" + std::to_string(g->next_val++) + ";";
            int e = api("enter_toi_local", [&] { return enter_toi_local(ka, wsrep::const_buffer(d.data(), d.size())); });
            if (e)
            {
                VCHECK("C15 C05", current_error() == wsrep::e_error_during_commit || current_error() == wsrep::e_timeout_error, "TOI failure error %d", (int)current_error());
                VCHECK("C15", mode() == wsrep::client_state::m_local, "mode after failed TOI");
            }
            else
            {
                seq_t s = toi_meta().seqno().get();
                VCHECK("C15", mode() == wsrep::client_state::m_toi && in_toi() && s == n.prov->inside, "TOI mode");
                n.toi(s, d, this);
                api("leave_toi_local", [&] { return leave_toi_local(wsrep::mutable_buffer()); });
                VCHECK("C15", mode() == wsrep::client_state::m_local && !in_toi(), "TOI mode after leave");
                expect_lw = gt(s);
                VCHECK("C14", last_written_gtid() == expect_lw, "last written after TOI");
            }
            api("after_statement", [this] { return after_statement(); });
        }, false);
    }

    // ---- high priority service ------------------------------------------
    Hps::Hps(Node& nn, wsrep::server_state& ss, Client* c, bool rep)
        : wsrep::high_priority_service(ss), n(nn), hc(c), replaying(rep)
    {
        own.node = &n; own.bf = true; own.hps = this;
        hc->my_hps = this;
    }
    std::string Hps::desc() const
    {
        return strf("trx %llu of %s state %d", (unsigned long long)hc->transaction().id().get(), hex(ids(hc->transaction().server_id())).substr(0, 16).c_str(), (int)hc->transaction().state());
    }
    Hps* Node::make_hps(bool rep, Client* orig, bool streaming)
    {
        const void* keep = get_ctx();
        Client* c = new Client(*this, wsrep::client_state::m_high_priority, name + (streaming ? ".sa" : rep ? ".replayer" : ".applier"));
        set_ctx(c);
        c->open(wsrep::client_id(g->next_cid++));
        c->before_command();
        Hps* h = new Hps(*this, ss, c, rep);
        h->orig = orig;
        h->streaming = streaming;
        h->own.lasting = streaming;
        if (streaming) { sas.push_back(h); ++live_hps; }
        set_ctx(keep);
        return h;
    }
    void Hps::shutdown()
    {
        VCHECK("C08", !dead, "%s: applier service released twice", n.name.c_str());
        dead = true;
        n.set_ctx(hc);
        VCHECK("C18 C08 C23 C24", !hc->transaction().active(), "%s: applier service released with open transaction (%s)", n.name.c_str(), desc().c_str());
        VCHECK("C18 C08", !own.active, "%s: applier service released before its DBMS transaction ended", n.name.c_str());
        hc->acquire_ownership();
        hc->after_command_before_result();
        hc->after_command_after_result();
        hc->close();
        hc->cleanup();
        n.set_ctx(nullptr);
        if (streaming) { n.sas.erase(std::remove(n.sas.begin(), n.sas.end(), this), n.sas.end()); --n.live_hps; }
    }
    void Hps::ck(const char* what)
    {
        VCHECK("C08 C18", !dead, "%s: %s on released applier service", n.name.c_str(), what);
        if (!n.smx.mine()) VCHECK("C08 C18", n.get_ctx() == hc, "%s: %s called outside of its thread context", n.name.c_str(), what);
    }
    int Hps::start_transaction(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        if (!streaming) ck("start_transaction");
        own.active = true;
        own.seqno = m.seqno().get();
        return hc->start_transaction(wh, m);
    }
    int Hps::next_fragment(const wsrep::ws_meta& m) { own.seqno = m.seqno().get(); return hc->next_fragment(m); }
    int Hps::adopt_transaction(const wsrep::transaction& t)
    {
        own.active = true;
        standin = streaming;
        if (current_id() != n.in_view) adopted = n.adoptions++; // not by the view handler itself
        hc->adopt_transaction(t);
        if (streaming && t.state() == T::s_prepared)
        {
            // prepared XA transaction changes hands with its locks
            Client* c = nullptr;
            for (auto x : n.clients) if (&x->transaction() == &t) c = x;
            VCHECK("C11", c, "adopted transaction has no session");
            own.pending = c->own.pending; own.overlay = c->own.overlay;
            for (int k : c->own.locks) { own.locks.insert(k); n.locks[k] = &own; own.mdl = true; }
            c->own.locks.clear(); ++c->own.epoch;
            c->db_rollback();
            hc->restore_xid(t.xid());
            standin = false;
        }
        return 0;
    }
    void Hps::apply_data(const std::string& d)
    {
        for (auto& o : parse(d))
        {
            n.lock_bf(own, o.k);
            std::string cur = n.value(own, o.k);
            VCHECK("C25 C01 C10", o.from == "*" || o.from == cur, "%s: applying %lld changes row %d from '%s', origin saw '%s'", n.name.c_str(), own.seqno, o.k, cur.c_str(), o.from.c_str());
            own.overlay[o.k] = o.to;
            yield();
        }
        own.pending += d;
    }
    int Hps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer&)
    {
        ck("apply_write_set");
        VCHECK("C18", own.active, "apply without transaction");
        std::string d(b.data() ? b.data() : "", b.size());
        if (replaying)
        {
            // a streamed transaction is replayed from its stored fragments
            std::vector<Frag> fs;
            for (auto& f : n.frags) if (f.sid == m.server_id() && f.tid == m.transaction_id().get()) fs.push_back(f);
            std::sort(fs.begin(), fs.end(), [](const Frag& x, const Frag& y) { return x.seqno < y.seqno; });
            for (auto& f : fs) apply_data(f.data);
            if (!fs.empty()) { FragOp op; op.ins = false; op.f.sid = m.server_id(); op.f.tid = m.transaction_id().get(); own.fops.push_back(op); }
        }
        if (!(m.flags() & F::commit)) hc->fragment_applied(m.seqno());
        apply_data(d);
        if (m.flags() & F::prepare)
        {
            wsrep::xid x = mkxid(xid_in(own.pending));
            if (!hc->transaction().is_xa()) hc->assign_xid(x);
            int e = hc->before_prepare() || hc->after_prepare();
            VCHECK("C11 C18", !e && hc->transaction().state() == T::s_prepared, "applied XA prepare failed");
        }
        return 0;
    }
    int Hps::append_fragment_and_commit(const wsrep::ws_handle& wh, const wsrep::ws_meta& m, const wsrep::const_buffer& b, const wsrep::xid& x)
    {
        ck("append_fragment_and_commit");
        VCHECK("C18 C08", !hc->transaction().active(), "fragment stored inside a transaction");
        hc->start_transaction(wh, m);
        own.active = true; own.seqno = m.seqno().get();
        FragOp f;
        f.ins = true;
        f.f.sid = m.server_id(); f.f.tid = m.transaction_id().get(); f.f.seqno = m.seqno().get(); f.f.flags = m.flags();
        f.f.data.assign(b.data(), b.size()); f.f.xid = x;
        own.fops.push_back(f);
        yield();
        hc->prepare_for_ordering(wh, m, true);
        int e = hc->before_commit();
        VCHECK("C18 C01", !e, "fragment store commit failed");
        n.apply_fops(own);
        own.active = own.mdl = false;
        e = hc->ordered_commit() || hc->after_commit();
        VCHECK("C18 C01", !e, "fragment store commit failed");
        hc->after_applying();
        return 0;
    }
    int Hps::remove_fragments(const wsrep::ws_meta& m)
    {
        ck("remove_fragments");
        FragOp f;
        f.ins = false;
        f.f.sid = m.server_id(); f.f.tid = m.transaction_id().get();
        if (streaming) VCHECK("C08 C18", hc->transaction().server_id() == f.f.sid && hc->transaction().id().get() == f.f.tid, "fragments of another transaction removed");
        if (streaming) n.known_fragments(hc->transaction(), f.f.sid, f.f.tid);
        own.fops.push_back(f);
        yield();
        return 0;
    }
    int Hps::commit(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        ck("commit");
        hc->prepare_for_ordering(wh, m, true);
        yield();
        if (m.seqno().is_undefined())
        {
            // out of order: fragment removal only
            VCHECK("C23 C18 C25", own.pending.empty(), "changes committed out of order");
            n.apply_fops(own);
            own.active = false;
            n.unlock_all(own);
            hc->before_rollback();
            hc->after_rollback();
            own.mdl = false;
            return 0;
        }
        const wsrep::id sid = hc->transaction().server_id();
        const uint64_t tid = hc->transaction().id().get();
        int e = 0;
        if (g->cfg.twopc && !(m.flags() & F::rollback) && hc->transaction().state() != T::s_prepared)
        {
            e = hc->before_prepare();
            yield();
            e = e || hc->after_prepare();
            VCHECK("C18 C10", !e, "%s: prepare of %lld failed while applying", n.name.c_str(), m.seqno().get());
            yield();
        }
        e = hc->before_commit();
        if (e) { return 1; }
        yield();
        if (m.flags() & F::rollback)
        {
            VCHECK("C18 C25", own.pending.empty(), "rollback write set commits changes");
            n.apply_fops(own);
            own.active = false;
        }
        else n.db_commit(own, sid, tid, m.seqno().get(), replaying ? "replay" : "apply");
        if (replaying && orig && orig->rec) ++orig->rec->db_commits, orig->rec->db_commits -= (orig->rec->db_commits > 1);
        e = hc->ordered_commit();
        e = e || hc->after_commit();
        own.mdl = false;
        VCHECK("C18 C01", !e, "%s: applier commit of %lld failed", n.name.c_str(), m.seqno().get());
        return e;
    }
    int Hps::rollback(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        ck("rollback");
        hc->prepare_for_ordering(wh, m, false);
        hc->before_rollback();
        own.overlay.clear(); own.pending.clear(); own.fops.clear();
        n.unlock_all(own);
        own.active = false;
        if (!n.smx.mine()) yield();
        hc->after_rollback();
        own.mdl = false;
        return 0;
    }
    int Hps::apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer&)
    {
        ck("apply_toi");
        hc->enter_toi_mode(m);
        n.toi(m.seqno().get(), std::string(b.data(), b.size()), hc);
        hc->leave_toi_mode();
        return 0;
    }
    void Hps::after_apply() { hc->after_applying(); }
    void Hps::store_globals()
    {
        VCHECK("C08 C18", !dead, "store_globals on released service");
        n.set_ctx(hc);
        hc->acquire_ownership();
    }
    void Hps::reset_globals() { n.set_ctx(nullptr); }
    int Hps::log_dummy_write_set(const wsrep::ws_handle& wh, const wsrep::ws_meta& m, wsrep::mutable_buffer& err)
    {
        label("dummy write set logged");
        ck("log_dummy_write_set");
        if (!m.ordered()) return 0;
        hc->start_transaction(wh, m);
        hc->prepare_for_ordering(wh, m, false);
        int e = n.prov->commit_order_enter(wh, m);
        VCHECK("C18 C01", !e, "dummy write set could not enter commit order");
        n.prov->commit_order_leave(wh, m, err);
        hc->before_rollback();
        hc->after_rollback();
        hc->after_applying();
        return 0;
    }

    // ---- storage service -------------------------------------------------
    Storage::Storage(Node& nn, Client* u) : n(nn), hc(nullptr), globals(chance(1, 2)), user(u)
    {
        const void* keep = n.get_ctx();
        hc = new Client(n, wsrep::client_state::m_high_priority, n.name + ".storage");
        n.set_ctx(hc);
        hc->open(wsrep::client_id(g->next_cid++));
        hc->before_command();
        n.set_ctx(keep);
        ++n.live_storage;
        own.node = &n; own.bf = true;
    }
    void Storage::ck(const char* what)
    {
        const void* want = globals ? (const void*)hc : (const void*)user;
        VCHECK("C08", n.get_ctx() == want, "%s: storage service %s called in a wrong thread context", n.name.c_str(), what);
        VCHECK("C04 C26", !n.smx.mine() && !user->mx.mine(), "storage service %s called with mutex held", what);
        yield();
    }
    int Storage::start_transaction(const wsrep::ws_handle& wh)
    {
        ck("start_transaction");
        if (g->fault("start_stor")) { user->rec->cause("start_stor", wsrep::e_append_fragment_error, 0); return 1; }
        (void)wh;
        own.active = true;
        return hc->start_transaction(wsrep::transaction_id(g->next_tid++));
    }
    void Storage::adopt_transaction(const wsrep::transaction& t)
    {
        ck("adopt_transaction");
        own.active = true;
        hc->adopt_transaction(t);
        adopted_sid = t.server_id(); adopted_tid = t.id().get();
        n.known_fragments(hc->transaction(), adopted_sid, adopted_tid);
    }
    int Storage::append_fragment(const wsrep::id& sid, wsrep::transaction_id tid, int flags, const wsrep::const_buffer& b, const wsrep::xid& x)
    {
        ck("append_fragment");
        if (g->fault("append_frag")) { user->rec->cause("append_frag", wsrep::e_append_fragment_error, 0); return 1; }
        FragOp f;
        f.ins = true;
        f.f.sid = sid; f.f.tid = tid.get(); f.f.flags = flags; f.f.data.assign(b.data(), b.size()); f.f.xid = x; f.f.seqno = -1;
        VCHECK("C08", sid == user->rec->sid && tid.get() == user->rec->tid, "fragment stored under a wrong transaction");
        VCHECK("C08 C11", user->rec->xa ? x == user->rec->xid : x.is_null(), "fragment stored with a wrong XA identifier");
        own.fops.push_back(f);
        user->storage_pending = f.f.data;
        return 0;
    }
    int Storage::update_fragment_meta(const wsrep::ws_meta& m)
    {
        ck("update_fragment_meta");
        if (g->fault("update_meta")) { user->rec->cause("update_meta", wsrep::e_deadlock_error, 0); return 1; }
        VCHECK("C08", own.fops.size() == 1, "no fragment to update");
        own.fops[0].f.seqno = m.seqno().get();
        return 0;
    }
    int Storage::remove_fragments()
    {
        ck("remove_fragments");
        FragOp f;
        f.ins = false;
        f.f.sid = adopted_sid; f.f.tid = adopted_tid;
        own.fops.push_back(f);
        return 0;
    }
    int Storage::commit(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        ck("commit");
        int e = 0;
        if (m.seqno().is_undefined())
        {
            n.apply_fops(own);
            own.active = false;
            hc->before_rollback();
            hc->after_rollback();
        }
        else
        {
            VCHECK("C08", own.fops.size() == 1 && own.fops[0].f.seqno == m.seqno().get(), "fragment stored under position %lld, certified at %lld", own.fops.empty() ? -1 : own.fops[0].f.seqno, m.seqno().get());
            bool bad = g->fault("stor_commit");
            if (bad) user->rec->cause("stor_commit", wsrep::e_deadlock_error, 0);
            hc->prepare_for_ordering(wh, m, true);
            if (!bad) e = hc->before_commit();
            if (bad || e)
            {
                own.fops.clear();
                own.active = false;
                hc->prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
                hc->before_rollback();
                hc->after_rollback();
                e = 1;
            }
            else
            {
                const Frag mine = own.fops[0].f;
                n.apply_fops(own);
                n.position = hc->transaction().ws_meta().seqno().get();
                own.active = false;
                e = hc->ordered_commit();
                if (!e)
                {
                    e = hc->after_commit();
                    VCHECK("C08 C01", !e, "fragment commit");
                }
                else
                {
                    VCHECK("C08 C01", hc->transaction().state() == T::s_aborting, "fragment store transaction is in state %d after its ordered commit failed", (int)hc->transaction().state());
                    n.frags.erase(std::remove_if(n.frags.begin(), n.frags.end(), [&](const Frag& x) { return x.sid == mine.sid && x.tid == mine.tid && x.seqno == mine.seqno; }), n.frags.end());
                    hc->prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
                    hc->before_rollback();
                    hc->after_rollback();
                }
            }
        }
        user->storage_pending.clear();
        hc->after_applying();
        return e;
    }
    int Storage::rollback(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        ck("rollback");
        own.fops.clear();
        own.active = false;
        hc->prepare_for_ordering(wh, m, false);
        hc->before_rollback();
        hc->after_rollback();
        hc->after_applying();
        user->storage_pending.clear();
        return 0;
    }
    void Storage::store_globals()
    {
        VCHECK("C08", n.get_ctx() == nullptr || n.get_ctx() == hc, "thread context of the storage service set up before the one of the session was put away");
        n.set_ctx(hc);
    }
    void Storage::reset_globals() { n.set_ctx(nullptr); }

    // ---- server service --------------------------------------------------
    wsrep::storage_service* SService::storage_service(wsrep::client_service& cs)
    {
        Client* c = static_cast<CService&>(cs).c;
        VCHECK("C04 C26", !n->smx.mine() && !c->mx.mine(), "storage_service() called with mutex held");
        return new Storage(*n, c);
    }
    wsrep::storage_service* SService::storage_service(wsrep::high_priority_service& h) { return new Storage(*n, static_cast<Hps&>(h).hc); }
    void SService::release_storage_service(wsrep::storage_service* s)
    {
        Storage* st = static_cast<Storage*>(s);
        VCHECK("C08", !st->own.active, "storage service released with open transaction");
        VCHECK("C08", !st->dead, "storage service released twice");
        st->dead = true;
        if (st->hc->transaction().active()) fail("C08", "storage service released with active transaction");
        const void* keep = n->get_ctx();
        n->set_ctx(st->hc);
        st->hc->after_command_before_result();
        st->hc->after_command_after_result();
        st->hc->close();
        st->hc->cleanup();
        n->set_ctx(st->globals ? nullptr : keep);
        --n->live_storage;
        yield();
    }
    wsrep::high_priority_service* SService::streaming_applier_service(wsrep::client_service&)
    {
        VCHECK("C04 C26", !n->smx.mine(), "streaming_applier_service() called with server mutex held");
        return n->make_hps(false, nullptr, true);
    }
    wsrep::high_priority_service* SService::streaming_applier_service(wsrep::high_priority_service&)
    {
        VCHECK("C04 C26", !n->smx.mine(), "streaming_applier_service() called with server mutex held");
        return n->make_hps(false, nullptr, true);
    }
    void SService::release_high_priority_service(wsrep::high_priority_service* h)
    {
        static_cast<Hps*>(h)->shutdown();
    }
    void SService::background_rollback(wsrep::unique_lock<wsrep::mutex>& lock, wsrep::client_state& cs)
    {
        VCHECK("C13 C04", lock.owns_lock(), "background_rollback without lock");
        Client* c = static_cast<Client*>(&cs);
        VCHECK("C13", c->is_rollbacker_active(), "background rollback not announced");
        label("background rollback");
        n->rbq.push_back(c);
    }
    void SService::bootstrap() { ++n->bootstraps; }
    void SService::log_view(wsrep::high_priority_service*, const wsrep::view& v) { if (v.status() == wsrep::view::primary) n->view = v; }
    void SService::recover_streaming_appliers(wsrep::client_service&) { recover(); }
    void SService::recover_streaming_appliers(wsrep::high_priority_service& h) { recover(); static_cast<Hps&>(h).store_globals(); }
    void SService::recover()
    {
        ++n->recoveries;
        VCHECK("C04 C26 C24", !n->smx.mine(), "recover_streaming_appliers with server mutex held");
        const void* keep = n->get_ctx();
        std::vector<Frag> fs = n->frags;
        std::sort(fs.begin(), fs.end(), [](const Frag& a, const Frag& b) { return a.seqno < b.seqno; });
        for (auto& f : fs)
        {
            wsrep::ws_meta m(gt(f.seqno), wsrep::stid(f.sid, wsrep::transaction_id(f.tid), wsrep::client_id(0)), wsrep::seqno::undefined(), f.flags);
            Hps* h = static_cast<Hps*>(n->ss.find_streaming_applier(f.sid, wsrep::transaction_id(f.tid)));
            if (!h)
            {
                label("streaming applier recovered");
                h = n->make_hps(false, nullptr, true);
                n->ss.start_streaming_applier(f.sid, wsrep::transaction_id(f.tid), h);
                n->set_ctx(h->hc);
                h->start_transaction(wsrep::ws_handle(wsrep::transaction_id(f.tid)), m);
            }
            else { n->set_ctx(h->hc); h->store_globals(); h->next_fragment(m); }
            h->store_globals();
            wsrep::mutable_buffer e;
            h->apply_write_set(m, wsrep::const_buffer(f.data.data(), f.data.size()), e);
            h->after_apply();
        }
        n->set_ctx(keep);
    }
    wsrep::view SService::get_view(wsrep::client_service&, const wsrep::id& own)
    {
        std::vector<wsrep::id> m;
        for (auto& x : n->view.members()) m.push_back(x.id());
        wsrep::view v = make_view(n->view.state_id().seqno().get(), wsrep::view::primary, m, own);
        return n->view.state_id().is_undefined() ? wsrep::view() : v;
    }
    wsrep::gtid SService::get_position(wsrep::client_service&) { return gt(n->position); }
    void SService::set_position(wsrep::client_service&, const wsrep::gtid& p)
    {
        VCHECK("C01", p == gt(n->prov->inside), "position %lld stored while %lld is in commit order", p.seqno().get(), n->prov->inside);
        n->position = p.seqno().get();
    }
    void SService::log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) { }
    bool SState::mutex_mine(const vf::Mutex& m) const { return m.mine(); }
    void SService::debug_sync(const char*) { if (!n->smx.mine()) { bool held = false; for (auto c : n->clients) held = held || c->mx.mine(); for (auto h : n->sas) held = held || h->hc->mx.mine(); if (!held) yield(); } }

    // ---- node ------------------------------------------------------------
    Node::Node(int i, int incarnation, bool sync)
        : NodeParts(), idx(i), inc(incarnation), name(strf("n%d.%d", i, incarnation)),
          sid(strf("node-%d-%d", i, incarnation)), ss(*this, name, sync), group(incarnation + 1)
    {
        svc.n = this;
        ss.set_provider_factory([this](wsrep::server_state& s, const std::string&, const std::string&, const wsrep::provider::services&)
                                { return std::unique_ptr<wsrep::provider>(prov = new Prov(s, *this)); });
        ss.load_provider("model", "");
    }
    void Node::deliver_view(Event& e)
    {
        wsrep::view v = make_view(e.seqno, wsrep::view::primary, e.members, sid);
        trace("%s VIEW %lld members=%zu own=%d", name.c_str(), e.seqno, e.members.size(), (int)v.own_index());
        set_ctx(main->hc);
        in_view = current_id();
        const long view_start = adoptions;
        ss.on_view(v, main);
        in_view = -1;
        VCHECK("C08 C23", get_ctx() == main->hc, "%s: thread context lost in view handling", name.c_str());
        VCHECK("C04 C26", !smx.mine(), "server mutex held after on_view");
        // C23: no streaming transaction of a departed origin survives, except prepared ones
        bool equal = e.equal;
        for (auto h : sas)
        {
            if (h->adopted >= view_start) continue; // handed over during the view
            if (h->dead || !h->hc->transaction().active()) continue;
            const wsrep::transaction& t = h->hc->transaction();
            bool member = std::find(e.members.begin(), e.members.end(), t.server_id()) != e.members.end();
            if (t.state() != T::s_prepared && t.state() != T::s_replaying && t.state() != T::s_aborting && t.state() != T::s_must_replay && !h->hc->is_rollbacker_active())
                VCHECK("C23", member && !equal, "%s: streaming applier of %s survives the view %lld without its origin", name.c_str(), h->desc().c_str(), e.seqno);
        }
        position = e.seqno;
    }
    void Node::applier()
    {
        if (!main)
        {
            main = make_hps(false, nullptr, false);
        }
        set_ctx(main->hc);
        main->hc->acquire_ownership();
        for (;;)
        {
            applier_idle = true;
            wait_for("applier: next event", [this] { return !ctl.empty() || (up && !paused && next <= g->last() && next <= limit); });
            applier_idle = false;
            if (!ctl.empty()) { auto f = ctl.front(); ctl.pop_front(); set_ctx(main->hc); f(); continue; }
            seq_t s = next;
            Event& e = g->ev(s);
            if (s <= prov->last_left) { ++next; continue; }
            if (e.kind == Event::VIEW)
            {
                wait_for("view turn", [this, s] { return prov->last_left == s - 1; });
                busy_seqno = s;
                deliver_view(e);
                busy_seqno = -1;
                prov->finish(s);
                if (e.members_has(sid) && !partitioned && s >= sync_after) prim = true;
                if (prim && s >= sync_after) do_sync();
                ++next;
                continue;
            }
            if (e.origin == this && !e.self_apply) { ++next; continue; }
            if (!e.cert_ok && !e.as_rollback)
            {
                // Galera cancels failed write sets inside the provider
                wait_for("cancel turn", [this, s] { return prov->last_left == s - 1; });
                prov->cancel_pos(s);
                ++next;
                continue;
            }
            wait_for("depends", [this, &e] { return prov->last_left >= e.depends; });
            if (e.kind == Event::WS)
                wait_for("XA identifier", [this, &e] { for (auto r : xid_busy) if (r->sid == e.sid && r->tid == e.tid) return false; return true; });
            busy_seqno = s;
            busy_last = s;
            set_ctx(main->hc);
            wsrep::ws_meta meta(gt(s), wsrep::stid(e.sid, wsrep::transaction_id(e.kind == Event::TOI ? (uint64_t)-1 : e.tid), wsrep::client_id(e.cid)), wsrep::seqno(e.depends), e.flags | (e.as_rollback ? (int)F::rollback : 0));
            wsrep::ws_handle wh(wsrep::transaction_id(g->applier_handle++ | (1ULL << 62)), &e);
            trace("%s APPLY %lld flags=%d", name.c_str(), s, e.flags);
            std::string data = e.as_rollback ? "" : e.data;
            int err = main->apply(wh, meta, wsrep::const_buffer(data.data(), data.size()));
            prov->promote(current_id());
            VCHECK("C18 C19 C25", !err, "%s: applying %lld failed with %d", name.c_str(), s, err);
            VCHECK("C08 C18", get_ctx() == main->hc, "%s: thread context not restored after applying %lld", name.c_str(), s);
            VCHECK("C18 C01", prov->last_left >= s, "%s: position %lld was not consumed by applying it", name.c_str(), s);
            VCHECK("C18 C01", !main->hc->transaction().active(), "%s: applier transaction left open after %lld", name.c_str(), s);
            VCHECK("C04 C26", !smx.mine(), "server mutex held after apply");
            busy_seqno = -1;
            ++next;
            applied_count++;
            yield();
        }
    }
    void Node::do_sync()
    {
        ss.on_sync();
        VCHECK("C04 C26", !smx.mine(), "server mutex held after on_sync");
        prov->promote(current_id());
        if (g->fault_rate["rollback_send"] == 0 && can_replicate())
            VCHECK("C09", prov->rbq.empty() || prov->rbq.back().stamp > 0, "queue");
    }
    void Node::rollbacker()
    {
        for (;;)
        {
            wait_for("rollbacker: work", [this] { return !rbq.empty(); });
            Client* c = rbq.front();
            rbq.pop_front();
            ++rb_busy;
            for (uint32_t i = range(0, 4); i; --i) yield();
            set_ctx(c);
            if (c->is_hp)
            {
                Hps* h = c->my_hps;
                h->store_globals();
                VCHECK("C18 C13", !ss.find_streaming_applier(c->transaction().server_id(), c->transaction().id()), "aborted streaming applier is still registered");
                h->rollback(wsrep::ws_handle(), wsrep::ws_meta());
                h->after_apply();
                h->shutdown();
            }
            else
            {
                c->acquire_ownership();
                VCHECK("C13", c->state() == wsrep::client_state::s_idle, "background rollback of a session that is not idle");
                VCHECK("C13 C03", c->own.active, "background rollback of a transaction that is already rolled back");
                bool must_replay = c->transaction().state() == T::s_must_replay;
                c->svc.bf_rollback();
                if (must_replay) c->xa_replay_idle();
                prov->promote(current_id());
                yield();
                c->sync_rollback_complete();
                VCHECK("C04", !c->mx.mine(), "mutex held");
            }
            set_ctx(nullptr);
            --rb_busy;
        }
    }
    void Client::xa_replay_idle()
    {
        xa_replay();
    }
}
namespace sim { bool Rec::commit_passed() const { return committing_data.size() > 0 && db_commits > 0; } }
