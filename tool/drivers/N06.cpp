#include "vx.h"
#include <dataframe/functional/stats/quantile.h>

using namespace df;

namespace N06 {

struct Parts {
    Array out, in, flags;
};

// the split as it is defined, from the quartiles of the library
static Parts parts(const Serie &s, const Array &a, unsigned n, double f) {
    double lo = stats::q25(s) - f * (stats::q75(s) - stats::q25(s));
    double hi = stats::q75(s) + f * (stats::q75(s) - stats::q25(s));
    Parts r;
    for (unsigned i = 0; i < n; ++i) {
        if (a[i] < lo || a[i] > hi) {
            r.out.push_back(a[i]);
            r.flags.push_back(1);
        } else {
            r.in.push_back(a[i]);
            r.flags.push_back(0);
        }
    }
    return r;
}

void split() {
    unsigned n = vx::pos(), dim = vx::u32();
    double f = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    Parts p = parts(s, a, n, f);
    vx::serie_is(stats::outliers(s, f), 1, p.out);
    vx::serie_is(stats::notOutliers(s, f), 1, p.in);
    vx::serie_is(stats::isOutliers(s, f), 1, p.flags);
    vx::kept(s, 1, n, dim, a);
}

void usual_factor() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    vx::same("values", stats::notOutliers(s).asArray(), parts(s, a, n, 1.5).in);
}

void nothing_lost() {
    unsigned n = vx::pos();
    double f = vx::real();
    Serie s(1, vx::array(n));
    vx::same("count", stats::outliers(s, f).count() + stats::notOutliers(s, f).count(), n);
    vx::same("flags", stats::isOutliers(s, f).count(), n);
}

void refused() {
    unsigned k = vx::pos(), n = vx::pos();
    double f = vx::real();
    vx::assume(k > 1);
    Serie s(k, vx::array(n * k));
    VX_REJECTS(stats::outliers(s, f));
    VX_REJECTS(stats::notOutliers(s, f));
    VX_REJECTS(stats::isOutliers(s, f));
}

} // namespace N06
