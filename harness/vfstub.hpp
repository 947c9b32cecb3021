#ifndef VF_STUB_HPP
#define VF_STUB_HPP
#include <functional>
#include "wsrep/provider_options.hpp"
namespace vf
{
    // What the (absent) provider config service would feed into provider_options.
    extern std::function<int(wsrep::provider_options*)> config_feed;
}
#endif
