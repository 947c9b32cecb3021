// Engine "report" (C30): status report file against a JSON reader and a list
// model, with injected write, rename and open failures and concurrent reporters.
#include "core.hpp"
#include "wsrep/reporter.hpp"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace vf;
namespace
{
    // ---- small strict JSON reader (bytes >= 0x80 are taken verbatim) ----
    struct J
    {
        enum T { nul, boolean, num, str, arr, obj } t = nul;
        std::string s;
        double d = 0;
        std::vector<J> a;
        std::vector<std::pair<std::string, J>> o;
        const J* get(const char* k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; }
    };
    struct Parser
    {
        const std::string& s;
        size_t p = 0;
        bool ok = true;
        explicit Parser(const std::string& x) : s(x) { }
        void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
        bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } ok = false; return false; }
        bool peek(char c) { ws(); return p < s.size() && s[p] == c; }
        std::string string()
        {
            std::string r;
            if (!eat('"')) return r;
            for (;;)
            {
                if (p >= s.size()) { ok = false; return r; }
                unsigned char c = static_cast<unsigned char>(s[p++]);
                if (c == '"') return r;
                if (c < 0x20) { ok = false; return r; }
                if (c != '\\') { r += static_cast<char>(c); continue; }
                if (p >= s.size()) { ok = false; return r; }
                char e = s[p++];
                switch (e)
                {
                case '"': case '\\': case '/': r += e; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u':
                {
                    if (p + 4 > s.size()) { ok = false; return r; }
                    unsigned v = 0;
                    for (int i = 0; i < 4; ++i)
                    {
                        char h = s[p++];
                        if (!isxdigit(static_cast<unsigned char>(h))) { ok = false; return r; }
                        v = v * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                    }
                    if (v > 0xff) { r += '?'; } else r += static_cast<char>(v);
                    break;
                }
                default: ok = false; return r;
                }
            }
        }
        J value(int depth = 0)
        {
            J j;
            ws();
            if (!ok || depth > 50 || p >= s.size()) { ok = false; return j; }
            char c = s[p];
            if (c == '{')
            {
                ++p;
                j.t = J::obj;
                if (peek('}')) { ++p; return j; }
                for (;;)
                {
                    ws();
                    std::string k = string();
                    if (!eat(':')) return j;
                    j.o.emplace_back(k, value(depth + 1));
                    if (!ok) return j;
                    if (peek(',')) { ++p; continue; }
                    eat('}');
                    return j;
                }
            }
            if (c == '[')
            {
                ++p;
                j.t = J::arr;
                if (peek(']')) { ++p; return j; }
                for (;;)
                {
                    j.a.push_back(value(depth + 1));
                    if (!ok) return j;
                    if (peek(',')) { ++p; continue; }
                    eat(']');
                    return j;
                }
            }
            if (c == '"') { j.t = J::str; j.s = string(); return j; }
            for (const char* lit : { "true", "false", "null" })
                if (s.compare(p, strlen(lit), lit) == 0) { p += strlen(lit); j.t = J::boolean; j.s = lit; return j; }
            size_t q = p;
            if (q < s.size() && s[q] == '-') ++q;
            size_t d0 = q;
            while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q;
            if (q == d0 || (s[d0] == '0' && q > d0 + 1)) { ok = false; return j; }
            if (q < s.size() && s[q] == '.')
            {
                size_t f0 = ++q;
                while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q;
                if (q == f0) { ok = false; return j; }
            }
            if (q < s.size() && (s[q] == 'e' || s[q] == 'E'))
            {
                ++q;
                if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q;
                size_t e0 = q;
                while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q;
                if (q == e0) { ok = false; return j; }
            }
            j.t = J::num;
            j.d = strtod(s.substr(p, q - p).c_str(), nullptr);
            j.s = s.substr(p, q - p);
            p = q;
            return j;
        }
        bool whole(J& j) { j = value(); ws(); return ok && p == s.size(); }
    };
    bool jeq(const J& x, const J& y)
    {
        if (x.t != y.t) return false;
        if (x.t == J::num) return x.d == y.d;
        if (x.t == J::arr)
        {
            if (x.a.size() != y.a.size()) return false;
            for (size_t i = 0; i < x.a.size(); ++i) if (!jeq(x.a[i], y.a[i])) return false;
            return true;
        }
        if (x.t == J::obj)
        {
            if (x.o.size() != y.o.size()) return false;
            for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first != y.o[i].first || !jeq(x.o[i].second, y.o[i].second)) return false;
            return true;
        }
        return x.s == y.s;
    }

    // ---- world -------------------------------------------------------
    struct Msg { double ts; std::string m; };
    struct Model
    {
        int sub = 0; // substate
        bool inited = false;
        std::string progress;
        std::vector<Msg> err, warn, ev;
        size_t max = 0;
        const char* state() const
        {
            static const char* n[] = { "DISCONNECTED", "DISCONNECTED", "DISCONNECTED", "CONNECTED", "JOINING", "JOINING", "JOINING", "JOINING", "JOINED", "SYNCED", "DONOR", "DISCONNECTING" };
            return n[sub];
        }
        const char* comment() const
        {
            static const char* n[] = { "Disconnected", "Initializing", "Connecting", "Waiting", "Receiving state", "Receiving SST", "Initializing", "Receiving IST", "Syncing", "Operational", "Donating SST", "Disconnecting" };
            return n[sub];
        }
    };
    const char* INDEF = "{ \"from\": -1, \"to\": -1, \"total\": -1, \"done\": -1, \"indefinite\": -1 }";
    const char* STEADY = "{ \"from\": -1, \"to\": -1, \"total\": 0, \"done\": 0, \"indefinite\": -1 }";

    struct World
    {
        bool active = false;   // fault injection and observation on
        std::string dir, file;
        Model m;
        bool seen = false;     // a complete file has been seen
        bool inited = false;   // constructor finished
        int arm = 0;           // fault to inject in the next update: 1 write error 2 short write 3 rename error 4 temp file error 5 file size limit
        bool fault_hit = false;
        bool stale = false;    // last update may have failed: older content is legal
        uint64_t nfaults = 0;
    };
    World* W;

    std::string slurp(const std::string& f, bool& exists)
    {
        std::string r;
        int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0));
        exists = fd >= 0;
        if (fd < 0) return r;
        char b[8192];
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n));
        close(fd);
        return r;
    }
    // A reader looks at the file now.
    bool observe(J& doc, const char* when)
    {
        bool ex;
        std::string t = slurp(W->file, ex);
        if (!ex)
        {
            VCHECK("C30", !W->seen, "%s: status file disappeared", when);
            return false;
        }
        Parser p(t);
        VCHECK("C30", p.whole(doc), "%s: reader sees an invalid or partial document (%zu bytes, stops at %zu): ...%s", when, t.size(), p.p,
               hex(t.substr(p.p > 20 ? p.p - 20 : 0, 40)).c_str());
        W->seen = true;
        return true;
    }
    void check_list(const J* a, const std::vector<Msg>& ref, const char* key, bool raw, const char* when, const char* what)
    {
        VCHECK("C30", a && a->t == J::arr, "%s: no %s list", when, what);
        VCHECK("C30", a->a.size() == ref.size(), "%s: %s lists %zu entries instead of %zu", when, what, a->a.size(), ref.size());
        for (size_t i = 0; i < ref.size(); ++i)
        {
            const J* m = a->a[i].get(key);
            const J* t = a->a[i].get("timestamp");
            VCHECK("C30", m && t && t->t == J::num, "%s: malformed entry in %s", when, what);
            if (raw)
            {
                J e;
                Parser p(ref[i].m);
                p.whole(e);
                VCHECK("C30", jeq(*m, e), "%s: %s entry %zu differs from what was reported", when, what, i);
            }
            else
                VCHECK("C30", m->t == J::str && m->s == ref[i].m, "%s: %s entry %zu is '%s' instead of '%s'", when, what, i, hex(m->s).c_str(), hex(ref[i].m).c_str());
            if (ref[i].ts > 0) VCHECK("C30", t->d == ref[i].ts, "%s: %s entry %zu has timestamp %.17g instead of %.17g", when, what, i, t->d, ref[i].ts);
        }
    }
    void compare(const char* when)
    {
        J doc;
        bool ex = observe(doc, when);
        if (W->stale) return; // content of an earlier successful update
        VCHECK("C30", ex, "%s: no status file", when);
        Model& m = W->m;
        const J* st = doc.get("status");
        VCHECK("C30", st && st->get("state") && st->get("comment") && st->get("progress"), "%s: no status", when);
        VCHECK("C30", st->get("state")->s == m.state() && st->get("comment")->s == m.comment(), "%s: file says %s/%s instead of %s/%s", when,
               st->get("state")->s.c_str(), st->get("comment")->s.c_str(), m.state(), m.comment());
        J pr;
        Parser pp(m.progress);
        pp.whole(pr);
        VCHECK("C30", jeq(*st->get("progress"), pr), "%s: progress differs from the latest report %s", when, m.progress.c_str());
        check_list(doc.get("errors"), m.err, "msg", false, when, "errors");
        check_list(doc.get("warnings"), m.warn, "msg", false, when, "warnings");
        check_list(doc.get("events"), m.ev, "event", true, when, "events");
        VCHECK("C30", doc.get("timestamp") && doc.get("date"), "%s: no timestamp", when);
    }
    void check_no_temp(const char* when)
    {
        DIR* d = opendir(W->dir.c_str());
        if (!d) return;
        std::string extra;
        while (struct dirent* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n != "." && n != ".." && n != "status.json") extra = n;
        }
        closedir(d);
        VCHECK("C30", extra.empty(), "%s: temporary file %s left behind", when, extra.c_str());
    }
    void touchpoint(const char* what)
    {
        J doc;
        observe(doc, what);
        if (current()) yield();
    }
}

extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    if (W && W->active && fd > 2)
    {
        W->active = false;
        touchpoint("before write");
        ssize_t r;
        if (W->arm == 1) { W->fault_hit = true; errno = ENOSPC; r = -1; }
        else if (W->arm == 2)
        {
            size_t k = n > 1 ? n / 2 : 0;
            W->fault_hit = true;
            W->arm = 1; // a retry fails
            r = k ? syscall(SYS_write, fd, b, k) : 0;
        }
        else
        {
            r = syscall(SYS_write, fd, b, n);
            if (W->arm == 5 && r != static_cast<ssize_t>(n)) W->fault_hit = true;
        }
        int e = errno;
        if (r >= 0) touchpoint("after write");
        W->active = true;
        errno = e;
        return r;
    }
    return syscall(SYS_write, fd, b, n);
}
extern "C" int rename(const char* a, const char* b) noexcept
{
    if (W && W->active)
    {
        W->active = false;
        touchpoint("before rename");
        int r;
        if (W->arm == 3) { W->fault_hit = true; errno = EIO; r = -1; }
        else r = static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
        int e = errno;
        touchpoint("after rename");
        W->active = true;
        errno = e;
        return r;
    }
    return static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
namespace
{
    struct Pending { std::function<void()> fn; };
    std::map<int, Pending> pend; // per fibre: model step to perform when the lock is taken
    class RMutex : public Mutex
    {
    public:
        RMutex() : Mutex("reporter mutex") { }
        void lock() override
        {
            Mutex::lock();
            auto it = pend.find(current_id());
            if (it != pend.end() && it->second.fn) { auto f = it->second.fn; it->second.fn = nullptr; f(); }
        }
    };
    std::string gen_msg()
    {
        static const char* fixed[] = { "simple message", "a/b", "quote \" here", "back\\slash", "tab\tnew\nline\r", "", "x" };
        switch (draw(4))
        {
        case 0: return fixed[draw(7)];
        case 1: { std::string s; for (uint32_t i = 0, n = draw(12); i < n; ++i) s += static_cast<char>(draw(128)); return s; }
        case 2: { std::string s; for (uint32_t i = 0, n = draw(40); i < n; ++i) s += static_cast<char>(draw(256)); return s; }
        default: { static const char c[] = "\"\\/\b\f\n\r\t\x01\x1f\x7f"; std::string s; for (uint32_t i = 0, n = draw(10); i < n; ++i) s += c[draw(12)]; return s; }
        }
    }
    void case_body()
    {
        const char* scratch = getenv("VF_SCRATCH");
        char tmpl[512];
        snprintf(tmpl, sizeof tmpl, "%s/repXXXXXX", scratch ? scratch : "/tmp");
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); _exit(2); }
        World w;
        W = &w;
        pend.clear();
        w.dir = tmpl;
        w.file = w.dir + "/status.json";
        w.m.max = 1 + draw(4);
        if (chance(1, 12)) w.m.max = 0;
        w.m.progress = INDEF;
        struct rlimit old;
        getrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, SIG_IGN);
        RMutex mtx;
        w.active = true;
        wsrep::reporter* rep = new wsrep::reporter(mtx, w.file, w.m.max);
        w.inited = true;
        w.active = false;
        compare("after construction");
        trace("reporter max_msg=%zu", w.m.max);
        mix(w.m.max);
        // legal server state walks as the reporter sees them
        int sst = 0; // server_state::state
        typedef wsrep::server_state SS;
        sst = SS::s_disconnected;
        uint32_t nf = 1 + (draw(3) == 2 ? 1 + draw(2) : 0);
        bool faults = nf == 1 && draw(2);
        if (nf > 1) set_switch_rate(2 + draw(6));
        std::string last_err, last_warn;
        auto push = [&w](std::vector<Msg>& v, const Msg& m) {
            v.push_back(m);
            if (v.size() > w.m.max) v.erase(v.begin());
        };
        uint32_t total_reports = 0;
        auto op = [&, rep](uint32_t fib) {
            uint32_t kind = wpick({ fib == 0 ? 4u : 0u, 3, 3, 5, 1 });
            mix(kind);
            ++total_reports;
            w.fault_hit = false;
            w.arm = 0;
            bool lim = false;
            if (faults && chance(1, 4))
            {
                w.arm = 1 + static_cast<int>(draw(5));
                mix(static_cast<uint64_t>(w.arm) + 100);
                if (w.arm == 4)
                {
                    // make the temporary file impossible: directory moved away for the call
                    syscall(SYS_renameat2, AT_FDCWD, w.dir.c_str(), AT_FDCWD, (w.dir + ".away").c_str(), 0);
                    w.fault_hit = true;
                }
                else if (w.arm == 5)
                {
                    struct rlimit rl = old;
                    rl.rlim_cur = draw(200);
                    lim = true;
                    w.active = false;
                    setrlimit(RLIMIT_FSIZE, &rl);
                    w.fault_hit = true;
                }
                label(w.arm == 1 ? "fault: write" : w.arm == 2 ? "fault: short write" : w.arm == 3 ? "fault: rename" : w.arm == 4 ? "fault: no directory" : "fault: size limit");
            }
            w.active = w.arm != 4;
            bool expect_write = true;
            auto model = [&](std::function<bool()> f) {
                if (nf == 1) expect_write = f();
                else pend[current_id()].fn = [f]() { f(); };
            };
            switch (kind)
            {
            case 0:
            {
                static const std::map<int, std::vector<int>> nxt = {
                    { SS::s_disconnected, { SS::s_initializing, SS::s_connected } },
                    { SS::s_initializing, { SS::s_initialized, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_initialized, { SS::s_connected, SS::s_joined, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_connected, { SS::s_joiner, SS::s_synced, SS::s_connected, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_joiner, { SS::s_joined, SS::s_initializing, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_joined, { SS::s_synced, SS::s_donor, SS::s_connected, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_donor, { SS::s_joined, SS::s_connected, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_synced, { SS::s_donor, SS::s_joined, SS::s_connected, SS::s_disconnecting, SS::s_disconnected } },
                    { SS::s_disconnecting, { SS::s_disconnected } } };
                std::vector<int> c = nxt.at(sst);
                // the server re-initialises storage at most once per connection, before or after SST
                if (sst == SS::s_joiner && w.m.inited) c.erase(std::find(c.begin(), c.end(), static_cast<int>(SS::s_initializing)));
                int to = pick(c);
                if (sst == SS::s_initialized && to == SS::s_connected && w.m.sub == 7) to = SS::s_joined;
                if (sst == SS::s_initialized && to == SS::s_joined && w.m.sub != 7) to = SS::s_connected;
                sst = to;
                trace("state %s", wsrep::to_c_string(static_cast<enum SS::state>(to)));
                mix(static_cast<uint64_t>(to));
                model([&w, to]() {
                    int n = w.m.sub;
                    switch (to)
                    {
                    case SS::s_disconnected: w.m.inited = false; n = 0; break;
                    case SS::s_initializing: n = w.m.sub == 0 ? 1 : 6; break;
                    case SS::s_initialized: w.m.inited = true; n = w.m.sub <= 1 ? 2 : 7; break;
                    case SS::s_connected: n = 3; break;
                    case SS::s_joiner: n = w.m.inited ? 4 : 5; break;
                    case SS::s_joined: n = 8; break;
                    case SS::s_donor: n = 10; break;
                    case SS::s_synced: n = 9; break;
                    case SS::s_disconnecting: n = 11; break;
                    }
                    if (n == w.m.sub) return false;
                    w.m.sub = n;
                    w.m.progress = n == 9 ? STEADY : INDEF;
                    return true;
                });
                rep->report_state(static_cast<enum SS::state>(to));
                break;
            }
            case 1:
            {
                std::string p = strf("{ \"from\": %u, \"to\": %u, \"total\": %u, \"done\": %u, \"indefinite\": -1 }", draw(5), draw(5), 10 + draw(3), draw(10));
                if (chance(1, 5)) p = w.m.progress;
                trace("progress %s", p.c_str());
                mixs(p);
                model([&w, p]() {
                    if (w.m.sub == 9 || p == w.m.progress) return false;
                    w.m.progress = p;
                    return true;
                });
                rep->report_progress(p);
                break;
            }
            case 2:
            {
                std::string p = strf("{ \"status\": \"s%u\", \"message\": \"m%u \\u0001 \\\" \\\\ \" }", draw(4), draw(4));
                trace("event %s", p.c_str());
                mixs(p);
                model([&, p]() { push(w.m.ev, Msg{ 0, p }); return true; });
                rep->report_event(p);
                break;
            }
            case 3:
            {
                bool err = draw(2);
                std::vector<Msg>& v = err ? w.m.err : w.m.warn;
                std::string msg = gen_msg();
                if (!v.empty() && chance(1, 4)) { msg = v.back().m; label("repeated message"); }
                double ts = draw(2) ? 0 : 1000.0 + draw(100000) / 64.0;
                trace("%s '%s' ts %g", err ? "error" : "warning", hex(msg).c_str(), ts);
                mixs(msg);
                std::string* last = err ? &last_err : &last_warn;
                (void)last;
                model([&v, &push, msg, ts, &w]() {
                    if (!v.empty() && v.back().m == msg) return false;
                    push(v, Msg{ ts, msg });
                    return w.m.max > 0 || true;
                });
                rep->report_log_msg(err ? wsrep::reporter::error : wsrep::reporter::warning, msg, ts);
                break;
            }
            case 4:
                vadvance(uint64_t(draw(1000)) * 1000000000ULL / 7);
                expect_write = false;
                break;
            }
            w.active = false;
            if (lim) setrlimit(RLIMIT_FSIZE, &old);
            if (w.arm == 4) syscall(SYS_renameat2, AT_FDCWD, (w.dir + ".away").c_str(), AT_FDCWD, w.dir.c_str(), 0);
            if (nf == 1)
            {
                if (w.fault_hit) { if (expect_write) { w.stale = true; ++w.nfaults; } }
                else if (expect_write) w.stale = false;
                compare("after report");
                check_no_temp("after report");
            }
            else
            {
                auto it = pend.find(current_id());
                VCHECK("C30", it == pend.end() || !it->second.fn, "report made without taking the lock");
                if (!mtx.locked()) { compare("after report"); check_no_temp("after report"); }
            }
        };
        if (nf == 1)
        {
            uint32_t n = 1 + draw(14);
            for (uint32_t i = 0; i < n; ++i) op(0);
        }
        else
        {
            label("concurrent reporters");
            std::vector<uint32_t> cnt;
            for (uint32_t f = 0; f < nf; ++f) cnt.push_back(1 + draw(5));
            for (uint32_t f = 0; f < nf; ++f)
                spawn(strf("reporter%u", f), [&, f]() { for (uint32_t i = 0; i < cnt[f]; ++i) op(f); });
            vf::run();
        }
        w.active = false;
        compare("at end");
        check_no_temp("at end");
        delete rep;
        VCHECK("C30", !mtx.locked(), "reporter returns with the lock held");
        if (total_reports >= 4 && (w.m.err.size() + w.m.warn.size() + w.m.ev.size() > 0)) nontrivial();
        W = nullptr;
        unlink(w.file.c_str());
        rmdir(w.dir.c_str());
    }
    Registrar r("report", case_body, ">=4 reports of which at least one message or event was listed");
}
