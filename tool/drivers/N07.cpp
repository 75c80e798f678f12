#include "vx.h"
#include <algorithm>
#include <cmath>
#include <dataframe/functional/stats/bins.h>

using namespace df;

namespace N07 {

// how many of the values lie in bin b
static double counted(const Array &a, unsigned n, unsigned nb, unsigned b, double start, double stop) {
    double w = (stop - start) / nb, r = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (a[i] >= start && a[i] <= stop) {
            unsigned at = w > 0 ? static_cast<unsigned>((a[i] - start) / w) : 0;
            if (at >= nb) {
                at = nb - 1;
            }
            if (at == b) {
                r += 1;
            }
        }
    }
    return r;
}

void given_bounds() {
    unsigned n = vx::pos(), nb = vx::pos();
    double start = vx::real(), stop = vx::real();
    vx::assume(start < stop);
    Array a = vx::array(n), want;
    for (unsigned b = 0; b < nb; ++b) {
        want.push_back(counted(a, n, nb, b, start, stop));
    }
    Serie s(1, a, vx::u32());
    vx::serie_is(stats::bins(s, nb, start, stop), 1, want);
    vx::kept(s, 1, n, 3, a);
}

// one value at a time: exactly the bin that covers it
template <unsigned NB> static void one_value() {
    double start = vx::real(), stop = vx::real(), v = vx::real();
    vx::assume(start < stop);
    Array want;
    for (unsigned b = 0; b < NB; ++b) {
        double lo = start + b * (stop - start) / NB, hi = start + (b + 1) * (stop - start) / NB;
        bool inside = v >= lo && (v < hi || (b + 1 == NB && v <= hi));
        want.push_back(inside ? 1 : 0);
    }
    Serie r = stats::bins(Serie(1, Array{v}), NB, start, stop);
    vx::same("bins", r.asArray(), want);
    vx::same("number of bins", r.count(), NB);
}
void one_bin() { one_value<1>(); }
void two_bins() { one_value<2>(); }
void three_bins() { one_value<3>(); }
void five_bins() { one_value<5>(); }

void fixed_bounds() {
    double v = vx::real(), w = vx::real();
    Array r = stats::bins(Serie(1, Array{v, w}), 4, 0, 8).asArray();
    vx::same("first", r[0], (v >= 0 && v < 2 ? 1.0 : 0.0) + (w >= 0 && w < 2 ? 1.0 : 0.0));
    vx::same("second", r[1], (v >= 2 && v < 4 ? 1.0 : 0.0) + (w >= 2 && w < 4 ? 1.0 : 0.0));
    vx::same("third", r[2], (v >= 4 && v < 6 ? 1.0 : 0.0) + (w >= 4 && w < 6 ? 1.0 : 0.0));
    vx::same("last", r[3], (v >= 6 && v <= 8 ? 1.0 : 0.0) + (w >= 6 && w <= 8 ? 1.0 : 0.0));
}

void number_of_bins() {
    unsigned n = vx::pos(), nb = vx::pos();
    Serie r = stats::bins(Serie(1, vx::array(n)), nb, vx::real(), vx::real());
    vx::same("number of bins", r.count(), nb);
    vx::same("itemSize", r.itemSize(), 1u);
    vx::same("all values", r.asArray().size(), std::size_t(nb));
}

void own_bounds() {
    unsigned n = vx::pos(), nb = vx::pos();
    Array a = vx::array(n);
    double lo = a[0], hi = a[0];
    for (unsigned i = 1; i < n; ++i) {
        lo = std::min(lo, a[i]);
        hi = std::max(hi, a[i]);
    }
    Serie s(1, a, vx::u32());
    vx::same("bins", stats::bins(s, nb).asArray(), stats::bins(s, nb, lo, hi).asArray());
    vx::same("number of bins", stats::bins(s, nb).count(), nb);
    vx::kept(s, 1, n, 3, a);
}

void two_values() {
    double v = vx::real(), w = vx::real();
    vx::assume(v < w);
    vx::same("bins", stats::bins(Serie(1, Array{w, v}), 2).asArray(), Array{1, 1});
    vx::same("three bins", stats::bins(Serie(1, Array{w, v, v}), 3).asArray(), Array{2, 0, 1});
}

void refused() {
    unsigned k = vx::pos(), n = vx::pos(), nb = vx::pos();
    vx::assume(k > 1);
    Serie s(k, vx::array(n * k));
    VX_REJECTS(stats::bins(s, nb, vx::real(), vx::real()));
    VX_REJECTS(stats::bins(s, nb));
}

} // namespace N07
