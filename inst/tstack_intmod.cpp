// Instantiates the header of /repo as it stands, inside a namespace (so that the AST filter sees it).
#include <fstream>
#include <iostream>
#include <sstream>
#include "spffl/intmath/intmod_t.h"
namespace spffl {
namespace inst {
#include "spffl/containers/tstack.h"
template class tstack<spffl::intmath::intmod_t>;
} // namespace inst
} // namespace spffl
