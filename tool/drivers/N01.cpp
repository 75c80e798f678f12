#include "vx.h"
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
#include <cmath>

using namespace df;

namespace N01 {

struct Two {
    unsigned k, n, dim;
    Array a, b;
    Serie s, t;
};

static Two two() {
    Two r;
    r.k = vx::pos();
    r.n = vx::pos();
    r.dim = vx::u32();
    r.a = vx::array(r.n * r.k);
    r.b = vx::array(r.n * r.k);
    r.s = Serie(r.k, r.a, r.dim);
    r.t = Serie(r.k, r.b, vx::u32());
    return r;
}

void add_two() {
    Two x = two();
    Array want(x.n * x.k);
    for (unsigned i = 0; i < x.n * x.k; ++i) {
        want[i] = x.a[i] + x.b[i];
    }
    vx::serie_is(math::add(x.s, x.t), x.k, x.dim, want);
    vx::kept(x.s, x.k, x.n, x.dim, x.a);
}

void add_two_numbers() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n), b = vx::array(n), want(n);
    for (unsigned i = 0; i < n; ++i) {
        want[i] = a[i] + b[i];
    }
    vx::serie_is(math::add(Serie(1, a, dim), Serie(1, b)), 1, dim, want);
}

void add_number() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double v = vx::real();
    Array a = vx::array(n), want(n);
    for (unsigned i = 0; i < n; ++i) {
        want[i] = a[i] + v;
    }
    vx::serie_is(math::add(Serie(1, a, dim), v), 1, dim, want);
    vx::assume(k > 1);
    VX_REJECTS(math::add(Serie(k, vx::array(n * k)), v));
}

void add_three() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] + b[i] + c[i];
    }
    vx::serie_is(math::add(Serie(k, a, dim), Serie(k, b), Serie(k, c)), k, dim, want);
}

void add_list() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] + b[i] + c[i];
    }
    vx::serie_is(math::add({Serie(k, a, dim), Serie(k, b), Serie(k, c)}), k, dim, want);
}

void add_list_of_one() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k);
    vx::serie_is(math::add({Serie(k, a, dim)}), k, dim, a);
}

void sub_two() {
    Two x = two();
    Array want(x.n * x.k);
    for (unsigned i = 0; i < x.n * x.k; ++i) {
        want[i] = x.a[i] - x.b[i];
    }
    vx::serie_is(math::sub(x.s, x.t), x.k, x.dim, want);
}

void sub_two_numbers() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n), b = vx::array(n), want(n);
    for (unsigned i = 0; i < n; ++i) {
        want[i] = a[i] - b[i];
    }
    vx::serie_is(math::sub(Serie(1, a, dim), Serie(1, b)), 1, dim, want);
}

void sub_number() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double v = vx::real();
    Array a = vx::array(n), want(n);
    for (unsigned i = 0; i < n; ++i) {
        want[i] = a[i] - v;
    }
    vx::serie_is(math::sub(Serie(1, a, dim), v), 1, dim, want);
    vx::assume(k > 1);
    VX_REJECTS(math::sub(Serie(k, vx::array(n * k)), v));
}

void sub_three() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] - b[i] - c[i];
    }
    vx::serie_is(math::sub(Serie(k, a, dim), Serie(k, b), Serie(k, c)), k, dim, want);
}

void sub_list() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] - b[i] - c[i];
    }
    vx::serie_is(math::sub({Serie(k, a, dim), Serie(k, b), Serie(k, c)}), k, dim, want);
}

void add_list_of_five() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] + b[i] + c[i] + d[i] + e[i];
    }
    vx::serie_is(math::add({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e)}), k, dim, want);
}

void sub_list_of_five() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] - b[i] - c[i] - d[i] - e[i];
    }
    vx::serie_is(math::sub({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e)}), k, dim, want);
}

void add_list_of_nine() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), f = vx::array(n * k), g = vx::array(n * k), h = vx::array(n * k), z = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] + b[i] + c[i] + d[i] + e[i] + f[i] + g[i] + h[i] + z[i];
    }
    vx::serie_is(math::add({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e), Serie(k, f), Serie(k, g), Serie(k, h), Serie(k, z)}), k, dim, want);
}

void sub_list_of_nine() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), f = vx::array(n * k), g = vx::array(n * k), h = vx::array(n * k), z = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] - b[i] - c[i] - d[i] - e[i] - f[i] - g[i] - h[i] - z[i];
    }
    vx::serie_is(math::sub({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e), Serie(k, f), Serie(k, g), Serie(k, h), Serie(k, z)}), k, dim, want);
}

void add_five() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] + b[i] + c[i] + d[i] + e[i];
    }
    vx::serie_is(math::add(Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e)), k, dim, want);
}

void sub_five() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] - b[i] - c[i] - d[i] - e[i];
    }
    vx::serie_is(math::sub(Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e)), k, dim, want);
}

void weighted_sum_of_six() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array w = vx::array(6);
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), f = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = w[0] * a[i] + w[1] * b[i] + w[2] * c[i] + w[3] * d[i] + w[4] * e[i] + w[5] * f[i];
    }
    vx::serie_is(math::weigthedSum({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e), Serie(k, f)}, w), k, dim, want);
}

void weighted_sum_of_nine() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array w = vx::array(9);
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), d = vx::array(n * k), e = vx::array(n * k), f = vx::array(n * k), g = vx::array(n * k), h = vx::array(n * k), z = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = w[0] * a[i] + w[1] * b[i] + w[2] * c[i] + w[3] * d[i] + w[4] * e[i] + w[5] * f[i] + w[6] * g[i] + w[7] * h[i] + w[8] * z[i];
    }
    vx::serie_is(math::weigthedSum({Serie(k, a, dim), Serie(k, b), Serie(k, c), Serie(k, d), Serie(k, e), Serie(k, f), Serie(k, g), Serie(k, h), Serie(k, z)}, w), k, dim, want);
}

void mult_number() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double v = vx::real();
    Array a = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] * v;
    }
    vx::serie_is(math::mult(Serie(k, a, dim), v), k, dim, want);
}

void mult_numbers() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n), b = vx::array(n), want(n);
    for (unsigned i = 0; i < n; ++i) {
        want[i] = a[i] * b[i];
    }
    vx::serie_is(math::mult(Serie(1, a, dim), Serie(1, b)), 1, dim, want);
}

void mult_vectors() {
    Two x = two();
    vx::assume(x.k >= 2);
    Array want(x.n * x.k);
    for (unsigned i = 0; i < x.n * x.k; ++i) {
        want[i] = x.a[i] * x.b[i];
    }
    vx::serie_is(math::mult(x.s, x.t), x.k, x.dim, want);
    vx::kept(x.s, x.k, x.n, x.dim, x.a);
}

void mult_vectors_by_numbers() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k), b = vx::array(n), want;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned j = 0; j < k; ++j) {
            want.push_back(a[i * k + j] * b[i]);
        }
    }
    vx::serie_is(math::mult(Serie(k, a, dim), Serie(1, b)), k, dim, want);
}

void div_number() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double v = vx::real();
    vx::assume(v != 0);
    Array a = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] / v;
    }
    vx::serie_is(math::div(v, Serie(k, a, dim)), k, dim, want);
}

void div_by_serie() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n), want;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned j = 0; j < k; ++j) {
            want.push_back(std::abs(b[i]) < 1e-10 ? 0.0 : a[i * k + j] / b[i]);
        }
    }
    Serie s(k, a, dim), d(1, b);
    vx::serie_is(math::div(d, s), k, dim, want);
    vx::kept(s, k, n, dim, a);
    vx::kept(d, 1, n, 3, b);
}

void div_numbers_by_serie() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n), b = vx::array(n), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(std::abs(b[i]) < 1e-10 ? 0.0 : a[i] / b[i]);
    }
    vx::serie_is(math::div(Serie(1, b), Serie(1, a, dim)), 1, dim, want);
}

void scale_by_number() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double v = vx::real();
    Array a = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = a[i] * v;
    }
    vx::serie_is(math::scale(Serie(k, a, dim), v), k, dim, want);
}

void scale_by_array() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), f = vx::array(k), want;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned j = 0; j < k; ++j) {
            want.push_back(a[i * k + j] * f[j]);
        }
    }
    vx::serie_is(math::scale(Serie(k, a, dim), f), k, dim, want);
}

void negate() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = -a[i];
    }
    Serie s(k, a, dim);
    vx::serie_is(math::negate(s), k, dim, want);
    vx::kept(s, k, n, dim, a);
}

void weighted_sum() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double u = vx::real(), v = vx::real(), w = vx::real();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = u * a[i] + v * b[i] + w * c[i];
    }
    Serie s(k, a, dim), t(k, b), r(k, c);
    vx::serie_is(math::weigthedSum({s, t, r}, Array{u, v, w}), k, dim, want);
    vx::serie_is(math::weigthedSum({s, t, r}, {u, v, w}), k, dim, want);
}

void weighted_sum_of_one() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    double u = vx::real();
    Array a = vx::array(n * k), want(n * k);
    for (unsigned i = 0; i < n * k; ++i) {
        want[i] = u * a[i];
    }
    vx::serie_is(math::weigthedSum({Serie(k, a, dim)}, Array{u}), k, dim, want);
}

void add_nine_arguments() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), want, left;
    Serie s(1, a), t(1, b);
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(5 * a[i] + 4 * b[i]);
        left.push_back(-3 * a[i] - 4 * b[i]);
    }
    vx::serie_is(math::add(s, t, s, t, s, t, s, t, s), 1, want);
    vx::serie_is(math::sub(s, t, s, t, s, t, s, t, s), 1, left);
}

} // namespace N01
