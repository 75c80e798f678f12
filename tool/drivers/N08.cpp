#include "vx.h"
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/normalize.h>
#include <algorithm>
#include <cmath>

using namespace df;

namespace N08 {

void min_max_numbers() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n);
    double lo = a[0], hi = a[0];
    for (unsigned i = 1; i < n; ++i) {
        lo = std::min(lo, a[i]);
        hi = std::max(hi, a[i]);
    }
    Serie s(1, a, dim);
    auto r = math::minMax(s);
    vx::same("min", r.min, Array{lo});
    vx::same("max", r.max, Array{hi});
    vx::kept(s, 1, n, dim, a);
}

void min_max_vectors() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32(), j = vx::u32();
    vx::assume(k >= 2);
    vx::assume(j < k);
    Array a = vx::array(n * k);
    double lo = a[j], hi = a[j];
    for (unsigned i = 1; i < n; ++i) {
        lo = std::min(lo, a[i * k + j]);
        hi = std::max(hi, a[i * k + j]);
    }
    Serie s(k, a, dim);
    auto r = math::minMax(s);
    vx::same("components", r.min.size(), std::size_t(k));
    vx::same("components", r.max.size(), std::size_t(k));
    vx::same("min", r.min[j], lo);
    vx::same("max", r.max[j], hi);
    vx::kept(s, k, n, dim, a);
}

void min_max_pairs() {
    double x = vx::real(), y = vx::real(), z = vx::real(), u = vx::real(), v = vx::real(), w = vx::real();
    auto r = math::minMax(Serie(2, Array{x, y, z, u, v, w}));
    vx::same("min", r.min, Array{std::min(x, std::min(z, v)), std::min(y, std::min(u, w))});
    vx::same("max", r.max, Array{std::max(x, std::max(z, v)), std::max(y, std::max(u, w))});
}

void min_max_three_numbers() {
    double x = vx::real(), y = vx::real(), z = vx::real();
    auto r = math::minMax(Serie(1, Array{x, y, z}));
    vx::same("min", r.min, Array{std::min(x, std::min(y, z))});
    vx::same("max", r.max, Array{std::max(x, std::max(y, z))});
}

void min_max_empty() {
    auto r = math::minMax(Serie(vx::pos(), 0u));
    vx::same("min", r.min, Array());
    vx::same("max", r.max, Array());
}

void normalize_numbers() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n), want;
    double lo = a[0], hi = a[0];
    for (unsigned i = 1; i < n; ++i) {
        lo = std::min(lo, a[i]);
        hi = std::max(hi, a[i]);
    }
    vx::assume(lo < hi);
    for (unsigned i = 0; i < n; ++i) {
        want.push_back((a[i] - lo) / (hi - lo));
    }
    Serie s(1, a, dim);
    vx::serie_is(math::normalize(s), 1, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void normalize_three_numbers() {
    double x = vx::real(), y = vx::real(), z = vx::real();
    vx::assume(x < y);
    vx::assume(y < z);
    vx::serie_is(math::normalize(Serie(1, Array{y, z, x})), 1, Array{(y - x) / (z - x), 1, 0});
}

static double length(const Array &a, unsigned k, unsigned i) {
    double r = 0;
    for (unsigned j = 0; j < k; ++j) {
        r += a[i * k + j] * a[i * k + j];
    }
    return std::sqrt(r);
}

void normalize_vectors() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32(), i = vx::u32();
    vx::assume(k >= 2);
    vx::assume(i < n);
    Array a = vx::array(n * k);
    vx::assume(length(a, k, i) > 0);
    Array want;
    for (unsigned j = 0; j < k; ++j) {
        want.push_back(a[i * k + j] / length(a, k, i));
    }
    Serie s(k, a, dim);
    Serie r = math::normalize(s);
    vx::same("itemSize", r.itemSize(), k);
    vx::same("count", r.count(), n);
    vx::same("F11:dimension", r.dimension(), dim);
    vx::same("item", r.value(i), want);
    vx::kept(s, k, n, dim, a);
}

void invalid() {
    VX_REJECTS(math::minMax(Serie()));
    VX_REJECTS(math::normalize(Serie()));
}

} // namespace N08
