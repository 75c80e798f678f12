#include "vx.h"
#include <dataframe/functional/math/equals.h>
#include <cmath>

using namespace df;

namespace N09 {

static bool all_equal(const Array &a, const Array &b) {
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i] != b[i]) {
            return false;
        }
    }
    return true;
}

static bool all_near(const Array &a, const Array &b, double eps) {
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!(std::abs(a[i] - b[i]) <= eps)) {
            return false;
        }
    }
    return true;
}

void same_shape() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::pos();
    double eps = vx::real();
    Array a = vx::array(n * k), b = vx::array(n * k);
    Serie s(k, a, dim), t(k, b, dim);
    vx::same("equals", math::equals(s, t), all_equal(a, b));
    vx::same("approximately", math::approximatelyEquals(s, t, eps), all_near(a, b, eps));
    vx::holds("itself", math::equals(s, s));
    vx::kept(s, k, n, dim, a);
}

void two_numbers() {
    double x = vx::real(), y = vx::real(), u = vx::real(), v = vx::real(), eps = vx::real();
    Serie s(1, Array{x, y}), t(1, Array{u, v});
    vx::same("equals", math::equals(s, t), x == u && y == v);
    vx::same("approximately", math::approximatelyEquals(s, t, eps), std::abs(x - u) <= eps && std::abs(y - v) <= eps);
}

void other_dimension() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k);
    vx::assume(dim != dim2);
    Serie s(k, a, dim), t(k, a, dim2);
    vx::holds("equals", !math::equals(s, t));
    vx::holds("approximately", !math::approximatelyEquals(s, t, 1));
}

void other_item_size() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), l = vx::pos(), n = vx::u32();
    vx::assume(k != l);
    Array a = vx::array(n * k * l);
    Serie s(k, a, dim), t(l, a, dim);
    vx::holds("equals", !math::equals(s, t));
    vx::holds("approximately", !math::approximatelyEquals(s, t, 1));
}

void other_count() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32();
    vx::assume(m != n);
    Serie s(k, n, dim), t(k, m, dim);
    vx::holds("equals", !math::equals(s, t));
    vx::holds("approximately", !math::approximatelyEquals(s, t, 1));
}

void invalid() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    Serie s(k, n, dim);
    vx::holds("equals", !math::equals(Serie(), Serie()));
    vx::holds("equals", !math::equals(s, Serie()));
    vx::holds("equals", !math::equals(Serie(), s));
    vx::holds("approximately", !math::approximatelyEquals(Serie(), Serie(), 1));
}

void all_forms() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k);
    Serie s(k, a, dim), t(k, b, dim), u(k, c, dim);
    vx::holds("one", math::equalsAll(s));
    vx::same("two", math::equalsAll(s, t), all_equal(a, b));
    vx::same("three", math::equalsAll(s, t, u), all_equal(a, b) && all_equal(b, c));
    vx::same("four", math::equalsAll(s, t, u, s), all_equal(a, b) && all_equal(b, c) && all_equal(c, a));
    vx::same("two, near", math::approximatelyEqualsAll(s, t, eps), all_near(a, b, eps));
}

void all_near_forms() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k);
    Serie s(k, a, dim), t(k, b, dim), u(k, c, dim);
    vx::same("three", math::approximatelyEqualsAll(s, t, u, eps), all_near(a, b, eps) && all_near(b, c, eps));
    vx::same("default", math::approximatelyEqualsAll(s, t, u),
             all_near(a, b, math::DEFAULT_EPSILON) && all_near(b, c, math::DEFAULT_EPSILON));
}

void mask_numbers() {
    unsigned dim = vx::u32();
    unsigned n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n), b = vx::array(n), want, near;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[i] == b[i] ? 1 : 0);
        near.push_back(std::abs(a[i] - b[i]) <= eps ? 1 : 0);
    }
    Serie s(1, a, dim), t(1, b, dim);
    vx::serie_is(math::equalityMask(s, t), 1, want);
    vx::serie_is(math::approximateEqualityMask(s, t, eps), 1, near);
    vx::kept(s, 1, n, dim, a);
}

void mask_vectors() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    double eps = vx::real();
    Array a = vx::array(n * k), b = vx::array(n * k), want, near;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(all_equal(vx::item(a, k, i), vx::item(b, k, i)) ? 1 : 0);
        near.push_back(all_near(vx::item(a, k, i), vx::item(b, k, i), eps) ? 1 : 0);
    }
    Serie s(k, a, dim), t(k, b, dim);
    vx::serie_is(math::equalityMask(s, t), 1, want);
    vx::serie_is(math::approximateEqualityMask(s, t, eps), 1, near);
}

void mask_pairs() {
    unsigned dim = vx::u32();
    unsigned n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n * 2), b = vx::array(n * 2), want, near;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[2 * i] == b[2 * i] && a[2 * i + 1] == b[2 * i + 1] ? 1 : 0);
        near.push_back(std::abs(a[2 * i] - b[2 * i]) <= eps && std::abs(a[2 * i + 1] - b[2 * i + 1]) <= eps ? 1 : 0);
    }
    Serie s(2, a, dim), t(2, b, dim);
    vx::serie_is(math::equalityMask(s, t), 1, want);
    vx::serie_is(math::approximateEqualityMask(s, t, eps), 1, near);
}

void mask_rejects() {
    unsigned k = vx::pos(), l = vx::pos(), n = vx::u32();
    vx::assume(k != l);
    VX_REJECTS(math::equalityMask(Serie(k, n), Serie(l, n)));
    VX_REJECTS(math::approximateEqualityMask(Serie(k, n), Serie(l, n)));
    VX_REJECTS(math::equalityMask(Serie(), Serie(k, n)));
}

// one after another differs, or none
void many_series() {
    unsigned n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n), b = vx::array(n);
    Serie s(1, a), t(1, b);
    bool same = all_equal(a, b), near = all_near(a, b, eps);
    vx::holds("all the same", math::equalsAll(s, s, s, s, s, s, s));
    vx::same("the first", math::equalsAll(t, s, s, s, s, s, s), same);
    vx::same("the second", math::equalsAll(s, t, s, s, s, s, s), same);
    vx::same("the third", math::equalsAll(s, s, t, s, s, s, s), same);
    vx::same("the fourth", math::equalsAll(s, s, s, t, s, s, s), same);
    vx::same("the fifth", math::equalsAll(s, s, s, s, t, s, s), same);
    vx::same("the sixth", math::equalsAll(s, s, s, s, s, t, s), same);
    vx::same("the seventh", math::equalsAll(s, s, s, s, s, s, t), same);
    vx::same("the seventh, near", math::approximatelyEqualsAll(s, s, s, s, s, s, t, eps), near && (n == 0 || eps >= 0));
}

// each is compared with the next
void neighbours_near() {
    unsigned n = vx::u32();
    double eps = vx::real();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c);
    vx::same("near", math::approximatelyEqualsAll(s, t, u, eps), all_near(a, b, eps) && all_near(b, c, eps));
}

} // namespace N09
