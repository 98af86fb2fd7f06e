// the handler of one plugin command, compiled on its own because it instantiates every data type
#include "main.h"
namespace vp_handlers { void min(Workspace& w, std::span<const std::string_view> a, std::ostream& o); }
void vp_handlers::min(Workspace& w, std::span<const std::string_view> a, std::ostream& o) { ::handlers::min(w, a, o); }
