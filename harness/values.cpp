// Engines "text" (C27) and "value" (C28): value types against independent
// reference implementations.
#include "core.hpp"
#include "wsrep/buffer.hpp"
#include "wsrep/client_id.hpp"
#include "wsrep/gtid.hpp"
#include "wsrep/id.hpp"
#include "wsrep/key.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/seqno.hpp"
#include "wsrep/sr_key_set.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include <algorithm>
#include <climits>
#include <sstream>
#include <unistd.h>

using namespace vf;

namespace
{
    std::string raw(const wsrep::id& i)
    { return std::string(static_cast<const char*>(i.data()), i.size()); }

    const char alnum[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    const char hexd[] = "0123456789abcdefABCDEF";

    std::string gen_bytes(size_t n)
    {
        std::string s;
        uint32_t mode = draw(4);
        for (size_t i = 0; i < n; ++i)
        {
            if (mode == 0) s += alnum[draw(62)];
            else if (mode == 1) s += static_cast<char>(draw(256));
            else if (mode == 2) s += static_cast<char>(draw(3) ? alnum[draw(62)] : 0);
            else s += hexd[draw(16)];
        }
        return s;
    }
    std::string gen_id_bytes() // 16 raw bytes
    {
        std::string s(16, '\0');
        switch (draw(5))
        {
        case 0: { size_t n = draw(17); for (size_t i = 0; i < n; ++i) s[i] = alnum[draw(62)]; break; }
        case 1: for (auto& c : s) c = static_cast<char>(draw(256)); break;
        case 2: { size_t n = draw(17); for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(draw(256)); break; }
        case 3: for (auto& c : s) c = draw(3) ? alnum[draw(62)] : static_cast<char>(draw(2) ? 0 : draw(256)); break;
        case 4: break;
        }
        return s;
    }
    long long gen_seqno()
    {
        switch (draw(6))
        {
        case 0: return static_cast<long long>(draw(10)) - 2;
        case 1: return static_cast<long long>((uint64_t(draw(1u << 31)) << 33) ^ (uint64_t(draw(1u << 31)) << 2) ^ draw(4));
        case 2: return LLONG_MAX - draw(3);
        case 3: return LLONG_MIN + draw(3);
        case 4: return static_cast<long long>(draw(1u << 31));
        default: return -1;
        }
    }
    std::string canon_uuid(const std::string& b)
    {
        std::string r;
        for (size_t i = 0; i < 16; ++i)
        {
            char t[4];
            snprintf(t, sizeof t, "%02x", static_cast<unsigned char>(b[i]));
            r += t;
            if (i == 3 || i == 5 || i == 7 || i == 9) r += '-';
        }
        return r;
    }
    // Reference reading of an identifier. 1 accepted, 0 rejected, -1 unspecified
    int ref_id(const std::string& s, std::string& out)
    {
        out.assign(16, '\0');
        if (s.size() <= 16) { std::copy(s.begin(), s.end(), out.begin()); return 1; }
        if (s.size() != 36) return 0;
        std::string digits;
        bool canon = true;
        for (size_t i = 0; i < 36; ++i)
        {
            bool dashpos = i == 8 || i == 13 || i == 18 || i == 23;
            char c = s[i];
            if (c == '-') { if (!dashpos) canon = false; }
            else
            {
                if (!isxdigit(static_cast<unsigned char>(c))) return 0;
                digits += c;
                if (dashpos) canon = false;
            }
        }
        if (digits.size() != 32) return 0;
        for (size_t i = 0; i < 16; ++i)
            out[i] = static_cast<char>(strtol(digits.substr(2 * i, 2).c_str(), nullptr, 16));
        return canon ? 1 : -1;
    }
    std::string gen_id_text()
    {
        switch (draw(6))
        {
        case 0: return canon_uuid(gen_id_bytes());
        case 1: return gen_bytes(draw(20));
        case 2:
        {
            std::string s = canon_uuid(gen_id_bytes());
            for (uint32_t i = 0, n = 1 + draw(3); i < n; ++i)
            {
                switch (draw(4))
                {
                case 0: s[draw(static_cast<uint32_t>(s.size()))] = static_cast<char>(draw(256)); break;
                case 1: s.insert(s.begin() + draw(static_cast<uint32_t>(s.size())), hexd[draw(22)]); break;
                case 2: if (s.size() > 1) s.erase(s.begin() + draw(static_cast<uint32_t>(s.size()))); break;
                case 3: s[draw(static_cast<uint32_t>(s.size()))] = hexd[draw(22)]; break;
                }
            }
            return s;
        }
        case 3:
        {
            std::string s = canon_uuid(gen_id_bytes());
            for (auto& c : s) if (draw(2)) c = static_cast<char>(toupper(c));
            return s;
        }
        case 4: return gen_bytes(30 + draw(12));
        default: return "";
        }
    }
    struct RefGtid { int ok; std::string id; long long seq; size_t consumed; };
    RefGtid ref_gtid(const std::string& s)
    {
        RefGtid r{0, "", 0, 0};
        size_t c = s.find(':');
        if (c == std::string::npos) return r;
        size_t p = c + 1;
        auto sp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
        bool strange = false;
        while (p < s.size() && sp(s[p])) { ++p; strange = true; }
        bool neg = false;
        if (p < s.size() && (s[p] == '-' || s[p] == '+')) { if (s[p] == '+') strange = true; neg = s[p] == '-'; ++p; }
        size_t d0 = p;
        __int128 v = 0;
        bool over = false;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9')
        {
            v = v * 10 + (s[p] - '0');
            if (v > (static_cast<__int128>(1) << 70)) { over = true; v = static_cast<__int128>(1) << 70; }
            ++p;
        }
        if (p == d0) return r;
        if (neg) v = -v;
        if (over || v > LLONG_MAX || v < LLONG_MIN) return r;
        int k = ref_id(s.substr(0, c), r.id);
        if (!k) return r;
        r.ok = (k < 0 || strange) ? -1 : 1;
        r.seq = static_cast<long long>(v);
        r.consumed = p;
        return r;
    }
    std::string gen_gtid_text()
    {
        std::string s = gen_id_text();
        if (!chance(1, 12)) s += ':';
        switch (draw(8))
        {
        case 0: s += std::to_string(gen_seqno()); break;
        case 1: s += std::to_string(gen_seqno()); s += gen_bytes(1 + draw(5)); break;
        case 2: s += "9223372036854775808"; break;
        case 3: s += "-9223372036854775809"; break;
        case 4: { uint32_t n = draw(25); for (uint32_t i = 0; i < n; ++i) s += static_cast<char>('0' + draw(10)); break; }
        case 5: s += gen_bytes(draw(8)); break;
        case 6: { s += ' '; s += std::to_string(gen_seqno()); break; }
        case 7: break;
        }
        return s;
    }

    void check_roundtrip_id()
    {
        std::string b = gen_id_bytes();
        wsrep::id a(b.data(), 16);
        VCHECK("C27", raw(a) == b, "id stores %s instead of %s", hex(raw(a)).c_str(), hex(b).c_str());
        std::ostringstream os;
        os << a;
        VCHECK("C27", os.str() == a.to_string(), "to_string differs from <<");
        // read back three ways
        try
        {
            wsrep::id c(os.str());
            VCHECK("C27", c == a && raw(c) == b, "id %s printed as '%s' reads back as %s", hex(b).c_str(), os.str().c_str(), hex(raw(c)).c_str());
            std::istringstream is(os.str());
            wsrep::id d;
            is >> d;
            VCHECK("C27", d == a, "id %s does not survive stream conversion", hex(b).c_str());
        }
        catch (const wsrep::runtime_error& e)
        {
            fail("C27", "printed id '%s' is rejected: %s", os.str().c_str(), e.what());
        }
        bool zero = b == std::string(16, '\0');
        VCHECK("C27", a.is_undefined() == zero, "undefinedness of id %s", hex(b).c_str());
        VCHECK("C27", wsrep::id::undefined().is_undefined() && wsrep::id() == wsrep::id::undefined(), "undefined id");
        // text form
        std::string t = os.str();
        VCHECK("C27", t.find(':') == std::string::npos && t.size() <= 36, "printed id '%s' is not embeddable in a gtid", t.c_str());
        trace("id %s -> '%s'", hex(b).c_str(), t.c_str());
        mixs(b);
        nontrivial();
        label("id roundtrip");
        std::string b2 = draw(3) ? gen_id_bytes() : b;
        if (draw(2)) { b2 = b; b2[draw(16)] = static_cast<char>(draw(256)); }
        wsrep::id a2(b2.data(), 16);
        int cmp = memcmp(b.data(), b2.data(), 16);
        VCHECK("C27", (a == a2) == (cmp == 0) && (a != a2) == (cmp != 0), "equality of ids %s %s", hex(b).c_str(), hex(b2).c_str());
        VCHECK("C27", (a < a2) == (cmp < 0) && (a2 < a) == (cmp > 0), "ordering of ids %s %s", hex(b).c_str(), hex(b2).c_str());
        size_t len = draw(20);
        std::string part = gen_bytes(len);
        try
        {
            wsrep::id p(part.data(), len);
            VCHECK("C27", len <= 16, "id of %zu bytes accepted", len);
            std::string e = part;
            e.resize(16, '\0');
            VCHECK("C27", raw(p) == e, "id from %zu raw bytes", len);
        }
        catch (const wsrep::runtime_error&) { VCHECK("C27", len > 16, "id of %zu bytes rejected", len); }
    }
    void check_parse_id()
    {
        std::string t = gen_id_text();
        std::string exp;
        int k = ref_id(t, exp);
        trace("parse id '%s' expected %d", hex(t).c_str(), k);
        mixs(t);
        if (t.size() > 16) nontrivial();
        label(k == 1 ? "id accepted" : k == 0 ? "id rejected" : "id unusual dashes");
        try
        {
            wsrep::id a(t);
            VCHECK("C27", k != 0, "invalid id text %s accepted", hex(t).c_str());
            VCHECK("C27", raw(a) == exp, "id text %s gives %s instead of %s", hex(t).c_str(), hex(raw(a)).c_str(), hex(exp).c_str());
        }
        catch (const wsrep::runtime_error&) { VCHECK("C27", k != 1, "valid id text %s rejected", hex(t).c_str()); }
    }
    void check_roundtrip_gtid()
    {
        std::string b = gen_id_bytes();
        long long s = gen_seqno();
        wsrep::gtid g(wsrep::id(b.data(), 16), wsrep::seqno(s));
        std::ostringstream os;
        os << g;
        std::istringstream is(os.str());
        wsrep::gtid h;
        is >> h;
        VCHECK("C27", !is.fail() && h == g && h.seqno().get() == s, "gtid '%s' does not survive stream conversion", os.str().c_str());
        size_t cap = draw(3) ? 57 + draw(8) : draw(64);
        std::string buf(cap + 16, '\x5a');
        ssize_t n = wsrep::print_to_c_str(g, &buf[8], cap);
        std::string text = os.str();
        if (text.size() > cap) VCHECK("C27", n < 0, "gtid printed into a too small buffer");
        else
        {
            VCHECK("C27", n == static_cast<ssize_t>(text.size()), "print_to_c_str returns %zd for '%s'", n, text.c_str());
            VCHECK("C27", buf.substr(8, static_cast<size_t>(n)) == text, "print_to_c_str text differs");
            size_t extra = draw(3);
            std::string padded = text + std::string(extra, extra == 1 ? ' ' : '\n');
            wsrep::gtid q;
            ssize_t m = wsrep::scan_from_c_str(padded.data(), padded.size(), q);
            VCHECK("C27", m == static_cast<ssize_t>(text.size()) && q == g, "scan_from_c_str of '%s' (+%zu) returns %zd", text.c_str(), extra, m);
        }
        VCHECK("C27", buf.substr(0, 8) == std::string(8, '\x5a') && buf.substr(8 + cap) == std::string(8, '\x5a'), "print_to_c_str writes out of bounds");
        VCHECK("C27", wsrep::gtid_c_str_len() >= text.size(), "gtid text longer than documented maximum");
        bool undef = b == std::string(16, '\0') && s == -1;
        VCHECK("C27", g.is_undefined() == undef, "undefinedness of gtid '%s'", text.c_str());
        VCHECK("C27", (g == wsrep::gtid::undefined()) == undef, "equality with undefined gtid");
        std::string b2 = draw(2) ? b : gen_id_bytes();
        long long s2 = draw(2) ? s : gen_seqno();
        wsrep::gtid g2(wsrep::id(b2.data(), 16), wsrep::seqno(s2));
        VCHECK("C27", (g == g2) == (b == b2 && s == s2), "equality of gtids");
        wsrep::seqno x(s), y(s2);
        VCHECK("C27", (x < y) == (s < s2) && (x > y) == (s > s2) && (x <= y) == (s <= s2) && (x >= y) == (s >= s2)
               && (x == y) == (s == s2) && (x != y) == (s != s2) && x.is_undefined() == (s == -1)
               && wsrep::seqno().is_undefined() && wsrep::seqno::undefined() == wsrep::seqno(-1), "seqno comparison %lld %lld", s, s2);
        if (s > LLONG_MIN) VCHECK("C27", x.prev().get() == s - 1, "seqno prev");
        if (s < LLONG_MAX - 100 && s > LLONG_MIN + 100)
            VCHECK("C27", (x + 7).get() == s + 7 && (x + wsrep::seqno(-3)).get() == s - 3, "seqno addition");
        std::ostringstream so;
        so << x;
        VCHECK("C27", so.str() == std::to_string(s), "seqno text");
        trace("gtid '%s' cap %zu -> %zd", text.c_str(), cap, n);
        mixs(text);
        mix(cap);
        nontrivial();
        label("gtid roundtrip");
    }
    void check_parse_gtid()
    {
        std::string t = gen_gtid_text();
        RefGtid r = ref_gtid(t);
        trace("parse gtid '%s' expected %d", hex(t).c_str(), r.ok);
        mixs(t);
        nontrivial();
        label(r.ok == 1 ? "gtid accepted" : r.ok == 0 ? "gtid rejected" : "gtid lenient form");
        std::unique_ptr<char[]> exact(new char[t.size() ? t.size() : 1]); // no terminator: over-reads are visible
        memcpy(exact.get(), t.data(), t.size());
        wsrep::gtid g(wsrep::id("x"), wsrep::seqno(42));
        ssize_t n = wsrep::scan_from_c_str(exact.get(), t.size(), g);
        if (r.ok == 0) VCHECK("C27", n < 0, "invalid gtid text %s accepted", hex(t).c_str());
        if (r.ok == 1 || (r.ok < 0 && n >= 0))
        {
            VCHECK("C27", n == static_cast<ssize_t>(r.consumed), "gtid text %s: consumed %zd instead of %zu", hex(t).c_str(), n, r.consumed);
            VCHECK("C27", raw(g.id()) == r.id && g.seqno().get() == r.seq, "gtid text %s: wrong value", hex(t).c_str());
        }
        std::istringstream is(t);
        wsrep::gtid h;
        is >> h;
        VCHECK("C27", (n < 0) == is.fail(), "stream and C string readers disagree on %s", hex(t).c_str());
        if (n >= 0) VCHECK("C27", h == g, "stream and C string readers give different values");
    }
    void text_case()
    {
        switch (draw(4))
        {
        case 0: check_roundtrip_id(); break;
        case 1: check_parse_id(); break;
        case 2: check_roundtrip_gtid(); break;
        case 3: check_parse_gtid(); break;
        }
    }

    // ---------------------------------------------------------------- C28
    void check_views()
    {
        std::vector<std::string> pool;
        std::set<std::string> used;
        size_t n = 1 + draw(6);
        while (pool.size() < n)
        {
            std::string b = gen_id_bytes();
            if (used.insert(b).second) pool.push_back(b);
            else { b[15] = static_cast<char>(pool.size() + 1); if (used.insert(b).second) pool.push_back(b); }
        }
        auto subset = [&]() {
            std::vector<std::string> m;
            for (auto& p : pool) if (draw(3)) m.push_back(p);
            for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[draw(static_cast<uint32_t>(i))]);
            return m;
        };
        auto mkview = [&](const std::vector<std::string>& m, enum wsrep::view::status st, ssize_t own) {
            std::vector<wsrep::view::member> mem;
            for (auto& p : m) mem.push_back(wsrep::view::member(wsrep::id(p.data(), 16), "n" + hex(p).substr(0, 4), "addr"));
            return wsrep::view(wsrep::gtid(wsrep::id("g"), wsrep::seqno(draw(100))), wsrep::seqno(draw(5)), st,
                               static_cast<int>(draw(1 << 18)), own, static_cast<int>(draw(5)), mem);
        };
        std::vector<std::string> a = subset(), b = draw(2) ? a : subset();
        for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[draw(static_cast<uint32_t>(i))]);
        enum wsrep::view::status sa = static_cast<enum wsrep::view::status>(draw(3));
        ssize_t own = static_cast<ssize_t>(draw(static_cast<uint32_t>(a.size()) + 1)) - 1;
        wsrep::view va = mkview(a, sa, own), vb = mkview(b, wsrep::view::primary, -1);
        std::set<std::string> as(a.begin(), a.end()), bs(b.begin(), b.end());
        VCHECK("C28", va.equal_membership(vb) == (as == bs) && vb.equal_membership(va) == (as == bs),
               "membership equality of views of %zu and %zu members", a.size(), b.size());
        VCHECK("C28", va.equal_membership(va), "membership equality is not reflexive");
        for (auto& p : pool)
        {
            auto it = std::find(a.begin(), a.end(), p);
            int exp = it == a.end() ? -1 : static_cast<int>(it - a.begin());
            wsrep::id id(p.data(), 16);
            VCHECK("C28", va.member_index(id) == exp && va.is_member(id) == (exp >= 0), "member lookup");
        }
        VCHECK("C28", va.is_final() == (sa != wsrep::view::primary && a.empty() && own == -1), "is_final of %s view with %zu members own %zd",
               wsrep::to_c_string(sa), a.size(), own);
        VCHECK("C28", va.status() == sa && va.own_index() == own && va.members().size() == a.size(), "view accessors");
        std::ostringstream os;
        os << va;
        size_t lines = 0;
        for (char c : os.str()) if (c == '\n') ++lines;
        VCHECK("C28", lines == 7 + a.size(), "view is printed in %zu lines for %zu members", lines, a.size());
        VCHECK("C28", wsrep::view().status() == wsrep::view::disconnected && wsrep::view().is_final() && wsrep::view().own_index() == -1, "default view");
        trace("views |a|=%zu |b|=%zu status %d own %zd", a.size(), b.size(), sa, own);
        mixs(os.str());
        mix(b.size());
        if (a.size() > 1) nontrivial();
        label("views");
    }
    struct RefXid { long f, g, b; std::string d; };
    void check_xid()
    {
        auto gen = [&](RefXid& r) {
            r.f = draw(4) ? static_cast<long>(draw(3)) : -1;
            r.g = draw(5) ? static_cast<long>(draw(8)) : static_cast<long>(60 + draw(8));
            r.b = draw(5) ? static_cast<long>(draw(8)) : static_cast<long>(60 + draw(8));
            r.d = gen_bytes(static_cast<size_t>(r.g + r.b));
        };
        RefXid ra, rb;
        gen(ra);
        if (draw(2)) gen(rb);
        else
        {
            rb = ra;
            switch (draw(5))
            {
            case 0: break;
            case 1: rb.f++; break;
            case 2: if (rb.g > 0) { rb.g--; rb.b++; } break;
            case 3: if (!rb.d.empty()) rb.d[draw(static_cast<uint32_t>(rb.d.size()))] ^= 1; break;
            case 4: if (rb.b > 0) { rb.b--; rb.d.pop_back(); } break;
            }
        }
        auto mk = [&](const RefXid& r, wsrep::xid& x) {
            try
            {
                wsrep::xid y(r.f, r.g, r.b, r.d.c_str());
                VCHECK("C28", r.g <= 64 && r.b <= 64, "oversize xid accepted (%ld,%ld)", r.g, r.b);
                x = y;
                return true;
            }
            catch (const wsrep::runtime_error&)
            {
                VCHECK("C28", r.g > 64 || r.b > 64, "valid xid rejected (%ld,%ld)", r.g, r.b);
                return false;
            }
        };
        wsrep::xid a, b;
        VCHECK("C28", a.is_null() && a == b, "default xid");
        bool oka = mk(ra, a), okb = mk(rb, b);
        trace("xid %ld/%ld/%ld/%s vs %ld/%ld/%ld/%s", ra.f, ra.g, ra.b, hex(ra.d).c_str(), rb.f, rb.g, rb.b, hex(rb.d).c_str());
        mixs(ra.d);
        mix(static_cast<uint64_t>(ra.f * 31 + ra.g * 7 + ra.b));
        label("xid");
        if (!oka || !okb) return;
        nontrivial();
        bool same = ra.f == rb.f && ra.g == rb.g && ra.b == rb.b && ra.d == rb.d;
        VCHECK("C28", (a == b) == same && (b == a) == same, "xid equality");
        VCHECK("C28", a.is_null() == (ra.f == -1), "xid nullness");
        VCHECK("C28", wsrep::to_string(a) == ra.d, "xid text");
        wsrep::xid c(a), d;
        d = a;
        VCHECK("C28", c == a && d == a, "xid copy");
        c.clear();
        VCHECK("C28", c.is_null() && c == wsrep::xid() && d == a && wsrep::to_string(c).empty(), "xid clear");
    }
    void check_keys()
    {
        wsrep::sr_key_set ks;
        std::map<std::string, std::set<std::string>> ref;
        size_t n = 1 + draw(8);
        VCHECK("C28", ks.empty(), "new key set not empty");
        std::vector<std::string> parts;
        for (int i = 0; i < 4; ++i) parts.push_back(gen_bytes(draw(4)));
        bool cleared = false;
        for (size_t i = 0; i < n; ++i)
        {
            size_t np = draw(5);
            wsrep::key k(static_cast<enum wsrep::key::type>(draw(4)));
            std::vector<std::string> p;
            for (size_t j = 0; j < np; ++j)
            {
                p.push_back(pick(parts));
            }
            bool threw = false;
            try { for (auto& s : p) k.append_key_part(s.data(), s.size()); }
            catch (const wsrep::runtime_error&) { threw = true; }
            VCHECK("C28", threw == (np > 3), "key of %zu parts", np);
            VCHECK("C28", k.size() == std::min<size_t>(np, 3), "key size");
            for (size_t j = 0; j < k.size(); ++j)
                VCHECK("C28", std::string(k.key_parts()[j].data() ? k.key_parts()[j].data() : "", k.key_parts()[j].size()) == p[j], "key part %zu", j);
            mix(np);
            for (auto& s : p) mixs(s);
            std::ostringstream os;
            os << k;
            if (k.size() < 2) continue; // outside the domain of a key set
            ks.insert(k);
            ref[p[0]].insert(p[1]);
            if (ref.size() > 1 || ref[p[0]].size() > 1) nontrivial();
            if (!cleared && chance(1, 12)) { ks.clear(); ref.clear(); cleared = true; VCHECK("C28", ks.empty(), "cleared key set not empty"); }
            VCHECK("C28", ks.empty() == ref.empty(), "key set emptiness");
            VCHECK("C28", ks.root() == ref, "key set content differs from the inserted pairs");
        }
        trace("key set with %zu roots", ref.size());
        label("keys");
    }
    void check_buffers()
    {
        wsrep::mutable_buffer b, other;
        std::string ref, oref;
        size_t n = 1 + draw(8);
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t op = draw(7);
            mix(op);
            switch (op)
            {
            case 0: { std::string s = gen_bytes(draw(20)); mixs(s); b.push_back(s.data(), s.data() + s.size()); ref += s; break; }
            case 1: { std::string s = gen_bytes(draw(20)); mixs(s); b.push_back(s); ref += s; break; }
            case 2: { size_t m = draw(40); b.resize(m); ref.resize(m, '\0'); break; }
            case 3: b.clear(); ref.clear(); break;
            case 4: other = b; oref = ref; break;
            case 5: { wsrep::mutable_buffer c(b); VCHECK("C28", c == b && c.size() == ref.size(), "buffer copy"); break; }
            case 6: b = other; ref = oref; break;
            }
            VCHECK("C28", b.size() == ref.size() && (ref.empty() || memcmp(b.data(), ref.data(), ref.size()) == 0), "buffer content after op %u", op);
            VCHECK("C28", other.size() == oref.size() && (oref.empty() || memcmp(other.data(), oref.data(), oref.size()) == 0), "copy changed by op %u", op);
            VCHECK("C28", (b == other) == (ref == oref), "buffer equality");
        }
        if (n > 2) nontrivial();
        wsrep::const_buffer cb(ref.data(), ref.size()), cc(cb), cd;
        cd = cb;
        VCHECK("C28", cc.ptr() == ref.data() && cc.size() == ref.size() && cd.data() == ref.data() && cd.size() == ref.size(), "const buffer");
        trace("buffer ops %zu final %zu bytes", n, ref.size());
        label("buffers");
    }
    void check_names()
    {
        static const char* caps[18] = { "MULTI-MASTER", "CERTIFICATION", "PARALLEL_APPLYING", "REPLAY", "ISOLATION", "PAUSE", "CAUSAL_READ",
            "CAUSAL_TRX", "INCREMENTAL_WS", "SESSION_LOCK", "DISTRIBUTED_LOCK", "CONSISTENCY_CHECK", "UNORDERED", "ANNOTATION", "PREORDERED",
            "STREAMING", "READ_VIEW", "NBO" };
        int m = static_cast<int>(draw(1 << 18));
        std::string exp;
        for (int i = 0; i < 18; ++i) if (m & (1 << i)) exp += std::string(exp.empty() ? "" : ", ") + caps[i];
        std::string got = wsrep::provider::capability::str(m);
        VCHECK("C28", got == exp, "capabilities %x named '%s'", m, got.c_str());
        struct { int f; const char* n; } fl[] = { { 1, "start_transaction" }, { 2, "commit" }, { 4, "rollback" }, { 8, "isolation" }, { 16, "pa_unsafe" },
            { 128, "prepare" }, { 256, "read_view" }, { 512, "implicit_deps" } };
        int f = 0;
        exp.clear();
        for (auto& x : fl) if (draw(2)) { f |= x.f; exp += std::string(exp.empty() ? "" : " | ") + x.n; }
        got = wsrep::flags_to_string(f);
        VCHECK("C28", got == exp, "flags %x named '%s'", f, got.c_str());
        VCHECK("C28", wsrep::starts_transaction(f) == !!(f & 1) && wsrep::commits_transaction(f) == !!(f & 2) && wsrep::rolls_back_transaction(f) == !!(f & 4)
               && wsrep::is_toi(f) == !!(f & 8) && wsrep::prepares_transaction(f) == !!(f & 128), "flag predicates for %x", f);
        std::set<std::string> names;
        for (int i = 0; i <= wsrep::provider::error_unknown; ++i) names.insert(wsrep::provider::to_string(static_cast<enum wsrep::provider::status>(i)));
        VCHECK("C28", names.size() == wsrep::provider::error_unknown + 1, "status names are not distinct");
        // meta and handle values
        wsrep::gtid g(wsrep::id("a"), wsrep::seqno(static_cast<long long>(draw(5)) - 1));
        if (chance(1, 4)) g = wsrep::gtid::undefined();
        wsrep::ws_meta wm(g, wsrep::stid(wsrep::id("s"), wsrep::transaction_id(draw(5)), wsrep::client_id(draw(5))), wsrep::seqno(draw(5)), f);
        VCHECK("C28", wm.ordered() == !g.is_undefined() && wm.gtid() == g && wm.flags() == f && wm == wm, "write set meta");
        wsrep::ws_meta w0;
        VCHECK("C28", !w0.ordered() && w0.seqno().is_undefined(), "default write set meta");
        trace("capabilities %x flags %x", m, f);
        mix(static_cast<uint64_t>(m) << 12 ^ static_cast<uint64_t>(f));
        nontrivial();
        label("names");
    }
    void value_case()
    {
        switch (draw(5))
        {
        case 0: check_views(); break;
        case 1: check_xid(); break;
        case 2: check_keys(); break;
        case 3: check_buffers(); break;
        case 4: check_names(); break;
        }
    }
    Registrar r1("text", text_case, "identifier or gtid conversions, and texts longer than 16 bytes");
    Registrar r2("value", value_case, "views with >1 member, valid xid pairs, key sets with >1 pair, >2 buffer operations, name decoding");
}
