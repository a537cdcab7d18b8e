// Instantiates the container headers of /repo as they stand, inside a namespace (so that the AST filter sees them),
// and compiles list_elements.cpp against those instances.
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <limits.h>
#include <string.h>
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_totient.h"
#undef TVECTOR_H
#undef TMATRIX_H
namespace spffl {
namespace inst {
#include "spffl/containers/tvector.h"
#include "spffl/containers/tmatrix.h"
} // namespace inst
using inst::tmatrix;
using inst::tvector;
} // namespace spffl
#include "spffl/list/list_elements.cpp"
