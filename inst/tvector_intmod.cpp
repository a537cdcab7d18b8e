// Instantiates the header of /repo as it stands, inside a namespace (so that the AST filter sees it).
#include <fstream>
#include <iostream>
#include <sstream>
#include <string.h>
#include <stdlib.h>
#include "spffl/base/spffl_exception.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/intmod_t.h"
namespace spffl {
namespace inst {
#include "spffl/containers/tvector.h"
typedef spffl::intmath::intmod_t E;
typedef tvector<spffl::intmath::intmod_t> V;
template tvector<E>::tvector();
template tvector<E>::tvector(int);
template tvector<E>::tvector(const E &, int);
template tvector<E>::tvector(const V &);
template V &tvector<E>::operator=(const V &);
template V &tvector<E>::operator=(const E);
template E &tvector<E>::operator[](int) const;
template V tvector<E>::operator+(const V &) const;
template V tvector<E>::operator-(const V &) const;
template V tvector<E>::operator-() const;
template V tvector<E>::operator*(const E &) const;
template V tvector<E>::operator*(const V &) const;
template V tvector<E>::operator/(const V &) const;
template E tvector<E>::dot(const V &);
template V tvector<E>::exp(int) const;
template V tvector<E>::operator+=(const V &);
template V tvector<E>::operator-=(const V &);
template V tvector<E>::operator*=(const E &);
template V tvector<E>::operator*=(const V &);
template V tvector<E>::operator/=(const E &);
template void tvector<E>::mult_by(const E &);
template void tvector<E>::accum_row_mul(E, E, V &);
template bool tvector<E>::operator==(const V &) const;
template bool tvector<E>::operator!=(const V &) const;
template bool tvector<E>::operator==(const E &) const;
template bool tvector<E>::operator!=(const E &) const;
template bool tvector<E>::find_leader_pos(const E &, int &) const;
template void tvector<E>::ptrswap(V &);
template void tvector<E>::check_equal_lengths(const V &) const;
template void tvector<E>::trim_num_elements(int);
template int tvector<E>::get_num_elements() const;
} // namespace inst
} // namespace spffl
