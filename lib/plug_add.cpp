// the handler of one plugin command, compiled on its own because it instantiates every data type
#include "main.h"
namespace vp_handlers { void add(Workspace& w, std::span<const std::string_view> a, std::ostream& o); }
void vp_handlers::add(Workspace& w, std::span<const std::string_view> a, std::ostream& o) { ::handlers::add(w, a, o); }
