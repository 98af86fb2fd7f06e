// the handler of one plugin command, compiled on its own because it instantiates every data type
#include "main.h"
namespace vp_handlers { void abs(Workspace& w, std::span<const std::string_view> a, std::ostream& o); }
void vp_handlers::abs(Workspace& w, std::span<const std::string_view> a, std::ostream& o) { ::handlers::abs(w, a, o); }
