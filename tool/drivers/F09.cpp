#include "vx.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F09 {

struct Pair {
    Serie s, t;
};

// two valid series of different counts
static Pair uneven(unsigned k, unsigned l) {
    unsigned n = vx::u32(), m = vx::u32();
    vx::assume(n != m);
    return {Serie(k, vx::array(n * k)), Serie(l, vx::array(m * l))};
}

void map_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    VX_REJECTS(df::map(vx::Vec2Num(), p.s, p.t));
    VX_REJECTS(df::map(vx::Vec2Vec(), p.s, p.t));
}

void map_third_count() {
    unsigned n = vx::u32(), m = vx::u32(), k = vx::pos();
    vx::assume(n != m);
    Serie s(k, vx::array(n * k)), t(k, vx::array(n * k)), u(k, vx::array(m * k));
    VX_REJECTS(df::map(vx::Vec3Num(), s, t, u));
    VX_REJECTS(df::map(vx::Vec3Num(), s, u, t));
    VX_REJECTS(df::map(vx::Vec3Num(), u, s, t));
}

void for_each_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    vx::take();
    VX_REJECTS((df::forEach(vx::Vec2Void(), p.s, p.t), 0));
    vx::same("no callback called", vx::take(), vx::take());
}

void map_before_any_call() {
    Pair p = uneven(vx::pos(), vx::pos());
    vx::take();
    VX_REJECTS(df::map(vx::Vec2Num(), p.s, p.t));
    vx::same("no callback called", vx::take(), vx::take());
}

void filter_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    vx::take();
    VX_REJECTS(df::filter(vx::Vec2Bool(), p.s, p.t));
    VX_REJECTS(utils::reject(vx::Vec2Bool(), p.s, p.t));
    vx::same("no callback called", vx::take(), vx::take());
}

void filter_all_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    VX_REJECTS(df::filterAll([](const Array &x, const Array &y) { return x[0] < y[0]; }, p.s, p.t));
    VX_REJECTS(utils::rejectAll([](const Array &x, const Array &y) { return x[0] < y[0]; }, p.s, p.t));
}

void partition_n_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    VX_REJECTS(utils::partition_n(vx::pos(), p.s, p.t));
}

void zip_counts() {
    Pair p = uneven(vx::pos(), vx::pos());
    VX_REJECTS(utils::zip(p.s, p.t));
    std::vector<Serie> v{p.s, p.t};
    VX_REJECTS(utils::zipVector(v));
}

void add_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k);
    VX_REJECTS(math::add(p.s, p.t));
    VX_REJECTS(math::add({p.s, p.t}));
    VX_REJECTS(math::add(p.s, p.s, p.t));
    VX_REJECTS(math::add(p.s, p.t, p.s));
}

void sub_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k);
    VX_REJECTS(math::sub(p.s, p.t));
    VX_REJECTS(math::sub({p.s, p.t}));
    VX_REJECTS(math::sub(p.s, p.s, p.t));
    VX_REJECTS(math::sub(p.s, p.t, p.s));
}

void mult_div_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k), q = uneven(k, 1);
    VX_REJECTS(math::mult(p.s, p.t));
    VX_REJECTS(math::mult(q.s, q.t));
    VX_REJECTS(math::div(q.t, q.s));
}

void weighted_sum_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k);
    double u = vx::real(), v = vx::real(), w = vx::real();
    VX_REJECTS(math::weigthedSum({p.s, p.t}, Array{u, v}));
    VX_REJECTS(math::weigthedSum({p.s, p.s, p.t}, Array{u, v, w}));
}

void dot_cross_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k), q = uneven(3, 3);
    VX_REJECTS(algebra::dot(p.s, p.t));
    VX_REJECTS(algebra::cross(q.s, q.t));
}

void covariance_counts() {
    Pair p = uneven(1, 1);
    VX_REJECTS(stats::covariance(p.s, p.t));
}

void mask_counts() {
    unsigned k = vx::pos();
    Pair p = uneven(k, k);
    VX_REJECTS(math::equalityMask(p.s, p.t));
    VX_REJECTS(math::approximateEqualityMask(p.s, p.t, vx::real()));
}

void item_sizes() {
    unsigned k = vx::pos(), l = vx::pos(), n = vx::pos();
    vx::assume(k != l);
    Serie s(k, vx::array(n * k)), t(l, vx::array(n * l));
    VX_REJECTS(math::add(s, t));
    VX_REJECTS(math::sub(s, t));
    VX_REJECTS(math::add({s, t}));
    VX_REJECTS(math::sub({s, t}));
    VX_REJECTS(math::add(s, s, t));
    VX_REJECTS(math::sub(s, s, t));
    VX_REJECTS(math::weigthedSum({s, t}, Array{1, 2}));
    VX_REJECTS(algebra::dot(s, t));
}

void mult_item_sizes() {
    unsigned k = vx::pos(), l = vx::pos(), n = vx::pos();
    vx::assume(k != l);
    vx::assume(l != 1);
    Serie s(k, vx::array(n * k)), t(l, vx::array(n * l));
    VX_REJECTS(math::mult(s, t));
}

void div_item_size() {
    unsigned k = vx::pos(), l = vx::pos(), n = vx::u32();
    vx::assume(l != 1);
    Serie s(k, vx::array(n * k)), t(l, vx::array(n * l));
    VX_REJECTS(math::div(t, s));
}

// a late one among many
void the_last_of_nine() {
    Pair p = uneven(1, 1);
    const Serie &s = p.s, &t = p.t;
    VX_REJECTS(utils::countAndCheck(s, s, s, s, s, s, s, s, t));
    VX_REJECTS(utils::countAndCheck(s, s, s, s, s, t, s, s, s));
    VX_REJECTS(utils::countAndCheck(Series{s, s, s, s, s, s, s, s, t}));
    VX_REJECTS(utils::countAndCheck(Series{s, s, s, s, s, t, s, s, s}));
    VX_REJECTS(utils::zip(s, s, s, s, s, s, s, s, t));
    VX_REJECTS(utils::zipVector(Series{s, s, s, s, s, s, s, s, t}));
    VX_REJECTS(math::add(s, s, s, s, s, s, s, s, t));
    VX_REJECTS(math::sub(s, s, s, s, s, s, s, s, t));
    VX_REJECTS(math::add({s, s, s, s, s, s, s, s, t}));
    VX_REJECTS(math::sub({s, s, s, s, s, s, s, s, t}));
    VX_REJECTS(utils::partition_n(2, s, s, s, s, s, s, s, s, t));
    VX_REJECTS(df::map([](const Array &a, const Array &, const Array &, const Array &, const Array &, const Array &, const Array &,
                          uint32_t) { return a[0]; }, s, s, s, s, s, s, t));
    VX_REJECTS((df::forEach([](const Array &, const Array &, const Array &, const Array &, const Array &, const Array &, const Array &,
                               uint32_t) {}, s, s, s, s, s, s, t), 0));
    VX_REJECTS(df::filterAll([](const Array &, const Array &, const Array &, const Array &, const Array &, const Array &,
                                const Array &) { return true; }, s, s, s, s, s, s, t));
}

} // namespace F09
