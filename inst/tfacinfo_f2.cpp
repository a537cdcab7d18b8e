// Instantiates the headers of /repo as they stand, inside a namespace (so that the AST filter sees them),
// and compiles f2_poly_factor.cpp against that instance.
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string.h>
#include "spffl/containers/tmatrix.h"
#include "spffl/polynomials/f2_poly_t.h"
#undef TVECTOR_H
#undef TFACINFO_H
namespace spffl {
namespace inst {
#include "spffl/containers/tvector.h"
#include "spffl/containers/tfacinfo.h"
template class tfacinfo<spffl::polynomials::f2_poly_t>;
} // namespace inst
using inst::tfacinfo;
} // namespace spffl
#include "spffl/factorization/f2_poly_factor.cpp"
