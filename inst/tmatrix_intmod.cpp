// Instantiates the headers of /repo as they stand, inside a namespace (so that the AST filter sees them).
#include <fstream>
#include <iostream>
#include <sstream>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include "spffl/base/spffl_exception.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/intmod_t.h"
namespace spffl {
namespace inst {
#include "spffl/containers/tvector.h"
#include "spffl/containers/tmatrix.h"
typedef spffl::intmath::intmod_t E;
typedef tvector<E> V;
typedef tmatrix<E> M;
template tmatrix<E>::tmatrix(int, int);
template tmatrix<E>::tmatrix(E, int, int);
template tmatrix<E>::tmatrix();
template tmatrix<E>::tmatrix(const M &);
template M &tmatrix<E>::operator=(const E &);
template M &tmatrix<E>::operator=(const M &);
template bool tmatrix<E>::operator==(const M &) const;
template bool tmatrix<E>::operator!=(const M &) const;
template bool tmatrix<E>::operator==(const E &) const;
template bool tmatrix<E>::operator!=(const E &) const;
template V tmatrix<E>::get_column(int) const;
template void tmatrix<E>::put_column(int, V &);
template M tmatrix<E>::operator+(const M &) const;
template M tmatrix<E>::operator-(const M &) const;
template M tmatrix<E>::operator-() const;
template M tmatrix<E>::operator+(const E &) const;
template M tmatrix<E>::operator-(const E &) const;
template V tmatrix<E>::operator*(const V &) const;
template M tmatrix<E>::operator*(const M &) const;
template M tmatrix<E>::operator*(const E &) const;
template M &tmatrix<E>::operator+=(const M &);
template M &tmatrix<E>::operator-=(const M &);
template M &tmatrix<E>::operator+=(const E &);
template M &tmatrix<E>::operator-=(const E &);
template M &tmatrix<E>::operator*=(const M &);
template M &tmatrix<E>::operator*=(const E &);
template M tmatrix<E>::outer(const V &, const V &);
template M tmatrix<E>::transpose() const;
template M tmatrix<E>::flip_horiz() const;
template M tmatrix<E>::flip_vert() const;
template M tmatrix<E>::flip_horiz_vert() const;
template bool tmatrix<E>::find_row(V &, int &) const;
template M tmatrix<E>::make_I(E, E) const;
template bool tmatrix<E>::is_square() const;
template void tmatrix<E>::swap(int, int);
template M tmatrix<E>::paste(const M &) const;
template M tmatrix<E>::paste_vector(const V &) const;
template void tmatrix<E>::split(M &, M &, int) const;
template void tmatrix<E>::trim_num_rows(int);
template int tmatrix<E>::get_num_rows() const;
template int tmatrix<E>::get_num_cols() const;
} // namespace inst
} // namespace spffl
