#include "vx.h"
#include <cmath>
#include <dataframe/functional/geo/insar.h>

using namespace df;

namespace N12 {

void projection() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(3 * n), los = vx::array(3), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[3 * i] * los[0] + a[3 * i + 1] * los[1] + a[3 * i + 2] * los[2]);
    }
    Serie s(3, a, dim);
    vx::serie_is(geo::insar(s, los), 1, want);
    vx::kept(s, 3, n, dim, a);
}

void no_projection() {
    unsigned k = vx::pos(), l = vx::u32(), n = vx::pos();
    Serie s(3, vx::array(3 * n));
    vx::assume(l != 3);
    vx::same("direction", geo::insar(s, vx::array(l)).isValid(), false);
    vx::assume(k != 3);
    vx::same("displacements", geo::insar(Serie(k, vx::array(k * n)), vx::array(3)).isValid(), false);
    vx::same("nothing", geo::insar(Serie(), vx::array(3)).isValid(), false);
    vx::same("displacements as long as the direction", geo::insar(Serie(k, vx::array(k * n)), vx::array(k)).isValid(), false);
}

void fringes() {
    unsigned n = vx::pos(), dim = vx::u32();
    double f = vx::real();
    vx::assume(f != 0);
    Array a = vx::array(n), want;
    for (unsigned i = 0; i < n; ++i) {
        double q = a[i] / f;
        want.push_back(std::abs(f * (q - std::floor(q))));
    }
    Serie s(1, a, dim);
    vx::serie_is(geo::fringes(s, f), 1, want);
    vx::kept(s, 1, n, dim, a);
}

// between 0 and the spacing
void fringes_in_range() {
    double v = vx::real(), f = vx::real();
    vx::assume(f > 0);
    Array r = geo::fringes(Serie(1, Array{v}), f).asArray();
    vx::same("one value", r.size(), std::size_t(1));
    vx::holds("from 0", r[0] >= 0);
    vx::holds("below the spacing", r[0] < f);
}

void no_fringes() {
    unsigned k = vx::pos(), n = vx::pos();
    vx::assume(k != 1);
    vx::same("vectors", geo::fringes(Serie(k, vx::array(k * n)), vx::real()).isValid(), false);
    vx::same("nothing", geo::fringes(Serie(), vx::real()).isValid(), false);
}

} // namespace N12
