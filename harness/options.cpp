// Engine "options" (C29): provider options against a map model.
#include "core.hpp"
#include "fakeprov.hpp"
#include "vfstub.hpp"
#include "wsrep/provider_options.hpp"
#include <limits>

using namespace vf;
namespace
{
    typedef wsrep::provider_options PO;
    typedef enum wsrep::provider::status S;
    class OptProvider : public FakeProvider
    {
    public:
        // provider_options never touches the server state
        OptProvider() : FakeProvider(*reinterpret_cast<wsrep::server_state*>(dummy_)), answer(success) { }
        S options(const std::string& s) override { calls.push_back(s); if (hook) hook(); return answer; }
        std::string options() const override { return ""; }
        S answer;
        std::vector<std::string> calls;
        std::function<void()> hook;
        alignas(64) static char dummy_[4096];
    };
    alignas(64) char OptProvider::dummy_[4096];

    struct RefVal { int type; std::string text; };
    struct RefOpt { std::string real, value, def; int flags; };

    std::unique_ptr<PO::option_value> gen_value(std::string& text)
    {
        switch (draw(4))
        {
        case 0:
        {
            static const char* vs[] = { "", "1", "yes", "a b", "tcp://1.2.3.4:4567", "x=y", "100M", "\"q\"", "PT15S" };
            text = vs[draw(9)];
            return std::unique_ptr<PO::option_value>(new PO::option_value_string(text));
        }
        case 1:
        {
            bool b = draw(2);
            text = b ? "yes" : "no";
            std::unique_ptr<PO::option_value> v(new PO::option_value_bool(b));
            VCHECK("C29", *static_cast<const bool*>(v->get_ptr()) == b && text == v->as_string(), "bool value");
            return v;
        }
        case 2:
        {
            int64_t n;
            switch (draw(4))
            {
            case 0: n = draw(10); break;
            case 1: n = -static_cast<int64_t>(draw(1000)); break;
            case 2: n = std::numeric_limits<int64_t>::max() - draw(2); break;
            default: n = std::numeric_limits<int64_t>::min() + draw(2); break;
            }
            text = std::to_string(n);
            std::unique_ptr<PO::option_value> v(new PO::option_value_int(n));
            VCHECK("C29", *static_cast<const int64_t*>(v->get_ptr()) == n && text == v->as_string(), "int value");
            return v;
        }
        default:
        {
            double d = (static_cast<double>(draw(2000)) - 1000) / (1 + draw(7));
            text = std::to_string(d);
            std::unique_ptr<PO::option_value> v(new PO::option_value_double(d));
            VCHECK("C29", *static_cast<const double*>(v->get_ptr()) == d && text == v->as_string(), "double value");
            return v;
        }
        }
    }
    std::string sanitize(std::string s) { for (auto& c : s) if (c == '.') c = '_'; return s; }

    void options_case()
    {
        static const char* names[] = { "a", "b", "a.b", "a_b", "gcs.fc_limit", "gcs.fc.limit", "pc.recovery", "x.y.z", "x_y.z", "A.b",
            "evs.send_window", "", ".", "repl.max_ws_size" };
        OptProvider prov;
        PO po(prov);
        std::map<std::string, RefOpt> ref;
        std::map<std::string, S> dummy;
#ifdef NDEBUG
        const bool dups = true;
#else
        const bool dups = false; // marked as programming error by an assertion
#endif
        auto compare = [&](const char* where) {
            std::map<std::string, int> seen;
            po.for_each([&](PO::option* o) {
                seen[o->name()]++;
                auto it = ref.find(o->name());
                VCHECK("C29", it != ref.end(), "%s: enumerates unknown option '%s'", where, o->name());
                VCHECK("C29", it->second.real == o->real_name(), "%s: option '%s' has real name '%s'", where, o->name(), o->real_name());
                VCHECK("C29", it->second.value == o->value()->as_string(), "%s: option '%s' has value '%s' instead of '%s'", where, o->name(),
                       o->value()->as_string(), it->second.value.c_str());
                VCHECK("C29", it->second.def == o->default_value()->as_string(), "%s: default of '%s' is '%s'", where, o->name(), o->default_value()->as_string());
                VCHECK("C29", it->second.flags == o->flags(), "%s: flags of '%s'", where, o->name());
            });
            for (auto& r : ref)
            {
                VCHECK("C29", seen[r.first] == 1, "%s: option '%s' enumerated %d times", where, r.first.c_str(), seen[r.first]);
                const PO::option* o = po.get_option(r.first);
                VCHECK("C29", o && r.second.value == o->value()->as_string(), "%s: option '%s' not readable", where, r.first.c_str());
            }
            for (auto n : names)
                if (!ref.count(n)) VCHECK("C29", po.get_option(n) == nullptr, "%s: undefined option '%s' found", where, n);
        };
        auto define = [&](PO* target) -> S {
            std::string name = names[draw(14)];
            if (!dups && ref.count(sanitize(name))) return wsrep::provider::success;
            std::string v, d;
            auto val = gen_value(v);
            auto def = gen_value(d);
            int flags = static_cast<int>(draw(32));
            bool exists = ref.count(sanitize(name));
            S r = target->set_default(name, std::move(val), std::move(def), flags);
            trace("define '%s'='%s' default '%s' -> %d%s", name.c_str(), v.c_str(), d.c_str(), r, exists ? " (exists)" : "");
            if (exists)
            {
                label("duplicate definition");
                VCHECK("C29", r != wsrep::provider::success, "duplicate definition of '%s' reported as success", name.c_str());
            }
            else
            {
                VCHECK("C29", r == wsrep::provider::success, "definition of '%s' refused", name.c_str());
                ref[sanitize(name)] = RefOpt{ name, v, d, flags };
            }
            mixs(name + "=" + v);
            return r;
        };
        uint32_t n = 1 + draw(14);
        bool set_ok = false, set_rej = false;
        for (uint32_t i = 0; i < n; ++i)
        {
            uint32_t op = wpick({ 4, 5, 1, 1 });
            mix(op);
            switch (op)
            {
            case 0: define(&po); compare("define"); break;
            case 1:
            {
                std::string name = draw(4) ? sanitize(names[draw(14)]) : names[draw(14)];
                if (!ref.empty() && draw(3)) { auto ri = ref.begin(); std::advance(ri, draw(static_cast<uint32_t>(ref.size()))); name = ri->first; }
                prov.answer = draw(3) ? wsrep::provider::success : static_cast<S>(1 + draw(11));
                std::string v;
                auto val = gen_value(v);
                prov.calls.clear();
                bool hooked = chance(1, 4);
                if (hooked) prov.hook = [&]() { compare("inside provider call"); };
                S r = po.set(name, std::move(val));
                prov.hook = nullptr;
                trace("set '%s'='%s' provider %d -> %d", name.c_str(), v.c_str(), prov.answer, r);
                mixs(name + "=" + v);
                auto it = ref.find(name);
                if (it == ref.end())
                {
                    label("set unknown");
                    VCHECK("C29", r != wsrep::provider::success && prov.calls.empty(), "setting unknown option '%s' gives %d and %zu provider calls",
                           name.c_str(), r, prov.calls.size());
                }
                else
                {
                    VCHECK("C29", prov.calls.size() == 1, "setting '%s' makes %zu provider calls", name.c_str(), prov.calls.size());
                    std::string exp = it->second.real + "=" + v;
                    VCHECK("C29", prov.calls[0] == exp + ";" || prov.calls[0] == exp, "setting '%s' passes '%s' to the provider", name.c_str(), prov.calls[0].c_str());
                    VCHECK("C29", r == prov.answer, "setting '%s' returns %d, provider said %d", name.c_str(), r, prov.answer);
                    if (r == wsrep::provider::success) { it->second.value = v; set_ok = true; label("set accepted"); }
                    else { set_rej = true; label("set rejected"); }
                }
                compare("set");
                break;
            }
            case 2:
            {
                std::string name = names[draw(14)];
                compare("read");
                trace("read '%s'", name.c_str());
                break;
            }
            case 3:
            {
                // (re)load from the provider's config service
                bool fails = chance(1, 4);
                uint32_t cnt = draw(5);
                ref.clear();
                config_feed = [&](PO* t) {
                    VCHECK("C29", t == &po, "options fetched into another object");
                    for (uint32_t j = 0; j < cnt; ++j) define(t);
                    return fails ? 1 : 0;
                };
                S r = po.initial_options();
                config_feed = nullptr;
                trace("initial options: %u definitions, fails %d -> %d", cnt, fails, r);
                VCHECK("C29", (r == wsrep::provider::success) == !fails, "initial_options returns %d", r);
                compare("initial options");
                label("initial options");
                break;
            }
            }
        }
        if (ref.size() >= 2 && (set_ok || set_rej)) nontrivial();
    }
    Registrar r("options", options_case, ">=2 options defined and at least one set answered by the provider");
}
