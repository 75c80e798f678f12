#include "vx.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F14 {

void map_apply() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Serie v(k, vx::array(n * k), dim), x(1, vx::array(n), dim);
    vx::NumNum f;
    vx::VecNum g;
    vx::NumVec h;
    vx::same("map, numbers", make_map(f)(x), map(f, x));
    vx::same("map, vectors", make_map(g)(v), map(g, v));
    vx::same("apply, numbers", utils::make_apply(f)(x), utils::apply(f, x));
    vx::same("apply, vectors", utils::make_apply(g)(v), utils::apply(g, v));
}

void map_own_state() {
    unsigned n = vx::u32();
    double m = vx::real();
    Serie x(1, vx::array(n));
    auto made = [&] {
        double local = m + 1;
        return make_map([local](double v, uint32_t) { return v * local; });
    }();
    vx::same("values", made(x), map([m](double v, uint32_t) { return v * (m + 1); }, x));
    vx::same("again", made(x), made(x));
}

void select() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Serie v(k, vx::array(n * k), dim), x(1, vx::array(n), dim), w(k, vx::array(n * k), dim);
    vx::NumBool f;
    vx::VecBool g;
    struct Both {
        bool operator()(const Array &p, const Array &q) const { return p[0] < q[0]; }
    } both;
    vx::same("filter, numbers", make_filter(f)(x), filter(f, x));
    vx::same("filter, vectors", make_filter(g)(v), filter(g, v));
    vx::same("reject, numbers", utils::make_reject(f)(x), utils::reject(f, x));
    vx::same("reject, vectors", utils::make_reject(g)(v), utils::reject(g, v));
    vx::same("findAll, numbers", makeFindAll(f)(x), findAll(f, x));
    vx::same("findAll, vectors", makeFindAll(g)(v), findAll(g, v));
    vx::same("cut", utils::make_cut(f)(x), utils::cut(f, x));
    vx::same("filterAll", make_filterAll(both)(v, w), filterAll(both, v, w));
    vx::same("rejectAll", utils::make_rejectAll(both)(v, w), utils::rejectAll(both, v, w));
}

void find_first() {
    unsigned n = vx::u32();
    Serie x(1, vx::array(n));
    vx::NumBool f;
    auto got = makeFind(f)(x), want = find(f, x);
    vx::same("found", got.found, want.found);
    vx::same("index", got.index, want.index);
    vx::same("value", got.value, want.value);
}

void fold() {
    unsigned k = vx::pos(), n = vx::u32();
    double init = vx::real();
    Array start = vx::array(k);
    Serie v(k, vx::array(n * k)), x(1, vx::array(n));
    vx::Fold1 f;
    vx::FoldA g;
    vx::same("numbers", make_reduce(f, init)(x), reduce(f, x, init));
    vx::same("vectors", make_reduce(g, start)(v), reduce(g, v, start));
}

void each() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Serie v(k, vx::array(n * k)), x(1, vx::array(n));
    vx::NumVoid f;
    vx::VecVoid g;
    vx::NumBool c;
    vx::take();
    forEach(f, x);
    forEach(g, v);
    vx::Trace calls = vx::take();
    make_forEach(f)(x);
    make_forEach(g)(v);
    vx::same("calls", vx::take(), calls);
    vx::same("check", cond::make_check(c)(x), cond::check(x, c));
}

void arithmetic() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    double d = vx::real();
    Array by = vx::array(k);
    Serie v(k, vx::array(n * k), dim), w(k, vx::array(n * k), dim), x(1, vx::array(n), dim);
    vx::same("add, number", math::make_add(d)(x), math::add(x, d));
    vx::same("add, series", math::make_add(v)(w), math::add(v, w));
    vx::same("sub, number", math::make_sub(d)(x), math::sub(x, d));
    vx::same("sub, series", math::make_sub(v)(w), math::sub(v, w));
    vx::same("mult, number", math::make_mult(d)(v), math::mult(v, d));
    vx::same("mult, series", math::make_mult(v)(w), math::mult(v, w));
    vx::same("scale, number", math::make_scale(d)(v), math::scale(v, d));
    vx::same("scale, factors", math::make_scale(by)(v), math::scale(v, by));
    vx::same("negate", math::make_negate()(v), math::negate(v));
}

void division() {
    unsigned k = vx::pos(), n = vx::u32();
    double d = vx::real();
    Serie v(k, vx::array(n * k)), x(1, vx::array(n));
    vx::assume(d != 0);
    vx::same("number", math::make_div(d)(v), math::div(d, v));
    vx::same("series", math::make_div(x)(v), math::div(x, v));
}

void compare() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie v(k, vx::array(n * k)), w(k, vx::array(n * k));
    vx::same("equals", math::make_equals(v)(w), math::equals(v, w));
    vx::same("approximately", math::make_approximatelyEquals(v)(w), math::approximatelyEquals(v, w));
}

void extrema() {
    unsigned n = vx::u32();
    vx::assume(n >= 1);
    Serie x(1, vx::array(n));
    auto got = math::make_minMax()(x), want = math::minMax(x);
    vx::same("min", got.min, want.min);
    vx::same("max", got.max, want.max);
    vx::same("normalize", math::make_normalize()(x), math::normalize(x));
}

void algebra() {
    unsigned n = vx::u32();
    Array dir = vx::array(3);
    Serie p(3, vx::array(n * 3)), q(3, vx::array(n * 3)), m(6, vx::array(n * 6)), f(9, vx::array(n * 9));
    vx::same("dot, array", algebra::make_dot(dir)(p), algebra::dot(p, dir));
    vx::same("dot, series", algebra::make_dot(p)(q), algebra::dot(p, q));
    vx::same("cross", algebra::make_cross(p)(q), algebra::cross(p, q));
    vx::same("norm", algebra::make_norm()(p), algebra::norm(p));
    vx::same("norm2", algebra::make_norm2()(p), algebra::norm2(p));
    vx::same("det", algebra::make_det()(m), algebra::det(m));
    vx::same("det, full", algebra::make_det()(f), algebra::det(f));
    vx::same("transpose", algebra::make_transpose()(f), algebra::transpose(f));
}

void statistics() {
    unsigned k = vx::pos(), n = vx::u32();
    double q = vx::real(), f = vx::real();
    vx::assume(n >= 1);
    vx::assume(q >= 0);
    vx::assume(q <= 1);
    Serie x(1, vx::array(n)), y(1, vx::array(n)), v(k, vx::array(n * k));
    vx::same("mean", stats::make_mean()(v).array, stats::mean(v).array);
    vx::same("mean, number", stats::make_mean()(x).number, stats::mean(x).number);
    vx::same("covariance", stats::make_covariance(x)(y), stats::covariance(x, y));
    vx::same("quantile", stats::make_quantile(q)(x), stats::quantile(x, q));
    vx::same("q25", stats::make_q25()(x), stats::q25(x));
    vx::same("q50", stats::make_q50()(x), stats::q50(x));
    vx::same("q75", stats::make_q75()(x), stats::q75(x));
}

void outliers() {
    unsigned n = vx::u32();
    double f = vx::real();
    vx::assume(n >= 1);
    Serie x(1, vx::array(n));
    vx::same("IQR", stats::make_IQR()(x), stats::IQR(x));
    vx::same("outliers", stats::make_outliers(f)(x), stats::outliers(x, f));
}

void is_outliers() {
    unsigned n = vx::u32();
    double f = vx::real();
    vx::assume(n >= 1);
    Serie x(1, vx::array(n));
    vx::same("isOutliers", stats::make_isOutliers(f)(x), stats::isOutliers(x, f));
    vx::same("notOutliers", stats::make_notOutliers(f)(x), stats::notOutliers(x, f));
}


void histogram() {
    unsigned n = vx::u32(), b = vx::pos();
    vx::assume(n >= 1);
    Serie x(1, vx::array(n));
    vx::same("bins", stats::make_bins(b)(x), stats::bins(x, b));
}

void order() {
    unsigned n = vx::u32(), dim = vx::u32();
    Serie x(1, vx::array(n), dim);
    auto down = [](double p, double q) { return p > q; };
    vx::same("sort", utils::make_sort(down)(x), utils::sort(x, down));
}

void join() {
    unsigned k = vx::pos(), l = vx::pos(), n = vx::u32(), m = vx::u32();
    vx::assume(n >= 1);
    Serie v(k, vx::array(n * k)), w(k, vx::array(m * k)), u(l, vx::array(n * l));
    vx::same("concat", utils::make_concat(v)(w), utils::concat(v, w));
    vx::same("zip", utils::make_zip(v)(u), utils::zip(v, u));
}

void geometry() {
    unsigned n = vx::u32(), m = vx::u32();
    double s = vx::real();
    Array los = vx::array(3);
    vx::assume(s > 0);
    Serie u(3, vx::array(n * 3)), d(1, vx::array(n));
    vx::same("insar", geo::make_insar(los)(u), geo::insar(u, los));
    vx::same("fringes", geo::make_fringes(s)(d), geo::fringes(d, s));
}

} // namespace F14
