// the registration function of the addition plugin, with the handler taken from the object compiled apart
#include "main.h"
#include "plugin_api.h"
namespace vp_handlers { typedef Workspace& W; typedef std::span<const std::string_view> A; typedef std::ostream& O; void add(W, A, O); }
#define handlers vp_handlers
#define register_plugin_commands vp_register_add
#include "plugin_math_add.cpp"
