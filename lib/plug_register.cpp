// the registration function of the mathematical plugin, with the handlers taken from the objects compiled apart
#include "main.h"
#include "plugin_api.h"
namespace vp_handlers { typedef Workspace& W; typedef std::span<const std::string_view> A; typedef std::ostream& O; void abs(W, A, O); void max(W, A, O); void min(W, A, O); void sum(W, A, O); void subtract(W, A, O); }
#define handlers vp_handlers
#define register_plugin_commands vp_register_math
#include "plugin_math.cpp"
