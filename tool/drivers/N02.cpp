#include "vx.h"
#include <cmath>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>

using namespace df;

namespace N02 {

void dot_two() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), want;
    for (unsigned i = 0; i < n; ++i) {
        double d = 0;
        for (unsigned j = 0; j < k; ++j) {
            d += a[i * k + j] * b[i * k + j];
        }
        want.push_back(d);
    }
    Serie s(k, a, dim), t(k, b, vx::u32());
    vx::serie_is(algebra::dot(s, t), 1, want);
    vx::kept(s, k, n, dim, a);
    vx::same("F10:values", t.asArray(), b);
}

void dot_three_components() {
    unsigned n = vx::pos();
    Array a = vx::array(n * 3), b = vx::array(n * 3), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[3 * i] * b[3 * i] + a[3 * i + 1] * b[3 * i + 1] + a[3 * i + 2] * b[3 * i + 2]);
    }
    vx::serie_is(algebra::dot(Serie(3, a), Serie(3, b)), 1, want);
}

void dot_array() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(k), want;
    for (unsigned i = 0; i < n; ++i) {
        double d = 0;
        for (unsigned j = 0; j < k; ++j) {
            d += a[i * k + j] * b[j];
        }
        want.push_back(d);
    }
    Serie s(k, a, dim);
    vx::serie_is(algebra::dot(s, b), 1, want);
    vx::kept(s, k, n, dim, a);
}

void dot_array_of_another_size() {
    unsigned k = vx::pos(), n = vx::pos(), l = vx::u32();
    vx::assume(l != k);
    bool refused = false;
    try {
        refused = algebra::dot(Serie(k, vx::array(n * k)), vx::array(l)).asArray().size() == 0;
    } catch (const std::exception &) {
        refused = true;
    }
    vx::holds("refused", refused);
}

void cross_two() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * 3), b = vx::array(n * 3), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[3 * i + 1] * b[3 * i + 2] - a[3 * i + 2] * b[3 * i + 1]);
        want.push_back(a[3 * i + 2] * b[3 * i] - a[3 * i] * b[3 * i + 2]);
        want.push_back(a[3 * i] * b[3 * i + 1] - a[3 * i + 1] * b[3 * i]);
    }
    Serie s(3, a, dim), t(3, b);
    vx::serie_is(algebra::cross(s, t), 3, want);
    vx::kept(s, 3, n, dim, a);
    vx::kept(t, 3, n, 3, b);
}

void cross_of_other_sizes() {
    unsigned k = vx::pos(), n = vx::pos();
    vx::assume(k != 3);
    Serie s(k, vx::array(n * k)), t(3, vx::array(n * 3));
    VX_REJECTS(algebra::cross(s, t));
    VX_REJECTS(algebra::cross(t, s));
    VX_REJECTS(algebra::cross(s, s));
    VX_REJECTS(algebra::cross(Serie(), t));
    VX_REJECTS(algebra::cross(t, Serie()));
}

void norm_of_vectors() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    Array a = vx::array(n * k), want, want2;
    for (unsigned i = 0; i < n; ++i) {
        double d = 0;
        for (unsigned j = 0; j < k; ++j) {
            d += a[i * k + j] * a[i * k + j];
        }
        want2.push_back(d);
        want.push_back(std::sqrt(d));
    }
    Serie s(k, a, dim);
    vx::serie_is(algebra::norm2(s), 1, want2);
    vx::serie_is(algebra::norm(s), 1, want);
    vx::kept(s, k, n, dim, a);
}

void norm_of_numbers() {
    unsigned n = vx::pos();
    Array a = vx::array(n), want, want2;
    for (unsigned i = 0; i < n; ++i) {
        want2.push_back(a[i] * a[i]);
        want.push_back(std::sqrt(a[i] * a[i]));
    }
    vx::serie_is(algebra::norm2(Serie(1, a)), 1, want2);
    vx::serie_is(algebra::norm(Serie(1, a)), 1, want);
}

void norm_of_three() {
    unsigned n = vx::pos();
    Array a = vx::array(3 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(std::sqrt(a[3 * i] * a[3 * i] + a[3 * i + 1] * a[3 * i + 1] + a[3 * i + 2] * a[3 * i + 2]));
    }
    vx::serie_is(algebra::norm(Serie(3, a)), 1, want);
}

void det_2d_full() {
    unsigned n = vx::pos();
    Array a = vx::array(4 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[4 * i] * a[4 * i + 3] - a[4 * i + 1] * a[4 * i + 2]);
    }
    Serie s(4, a, 2);
    vx::serie_is(algebra::det(s), 1, want);
    vx::kept(s, 4, n, 2, a);
}

void det_2d_symmetric() {
    unsigned n = vx::pos();
    Array a = vx::array(3 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[3 * i] * a[3 * i + 2] - a[3 * i + 1] * a[3 * i + 1]);
    }
    vx::serie_is(algebra::det(Serie(3, a, 2)), 1, want);
}

// a 3x3 matrix given by its nine entries
static double determinant(const double *m) {
    return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
}

void det_3d_full() {
    unsigned n = vx::pos();
    Array a = vx::array(9 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        double m[9];
        for (unsigned j = 0; j < 9; ++j) {
            m[j] = a[9 * i + j];
        }
        want.push_back(determinant(m));
    }
    Serie s(9, a, 3);
    vx::serie_is(algebra::det(s), 1, want);
    vx::kept(s, 9, n, 3, a);
}

void det_3d_symmetric() {
    unsigned n = vx::pos();
    Array a = vx::array(6 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        double xx = a[6 * i], xy = a[6 * i + 1], xz = a[6 * i + 2], yy = a[6 * i + 3], yz = a[6 * i + 4], zz = a[6 * i + 5];
        double m[9] = {xx, xy, xz, xy, yy, yz, xz, yz, zz};
        want.push_back(determinant(m));
    }
    vx::serie_is(algebra::det(Serie(6, a, 3)), 1, want);
}

void det_of_other_sizes() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    vx::assume(!(dim == 2 && k == 3));
    vx::assume(!(dim == 2 && k == 4));
    vx::assume(!(dim == 3 && k == 6));
    vx::assume(!(dim == 3 && k == 9));
    VX_REJECTS(algebra::det(Serie(k, vx::array(n * k), dim)));
}

// one regular matrix: times its inverse it is the identity
void inv_full() {
    Array m = vx::array(9);
    double d = determinant(m.data());
    vx::assume(!(std::abs(d) < 1e-10));
    Serie s(9, m, 3), r = algebra::inv(s);
    vx::same("itemSize", r.itemSize(), 9u);
    vx::same("count", r.count(), 1u);
    Array v = r.value(0);
    for (unsigned i = 0; i < 3; ++i) {
        for (unsigned j = 0; j < 3; ++j) {
            double p = 0;
            for (unsigned k = 0; k < 3; ++k) {
                p += m[3 * i + k] * v[3 * k + j];
            }
            vx::same("times the matrix", p, i == j ? 1.0 : 0.0);
        }
    }
    vx::kept(s, 9, 1, 3, m);
}

void inv_symmetric() {
    Array p = vx::array(6);
    Array m{p[0], p[1], p[2], p[1], p[3], p[4], p[2], p[4], p[5]};
    double d = determinant(m.data());
    vx::assume(!(std::abs(d) < 1e-10));
    Serie s(6, p, 3), r = algebra::inv(s);
    vx::same("itemSize", r.itemSize(), 6u);
    vx::same("count", r.count(), 1u);
    Array q = r.value(0);
    Array v{q[0], q[1], q[2], q[1], q[3], q[4], q[2], q[4], q[5]};
    for (unsigned i = 0; i < 3; ++i) {
        for (unsigned j = 0; j < 3; ++j) {
            double e = 0;
            for (unsigned k = 0; k < 3; ++k) {
                e += m[3 * i + k] * v[3 * k + j];
            }
            vx::same("times the matrix", e, i == j ? 1.0 : 0.0);
        }
    }
    vx::kept(s, 6, 1, 3, p);
}

// every item is inverted on its own
void inv_items() {
    unsigned n = vx::pos();
    Array a = vx::array(9 * n), b = vx::array(6 * n), wa, wb;
    for (unsigned i = 0; i < n; ++i) {
        const Array &v = vx::item(a, 9, i);
        double d = determinant(v.data());
        wa.push_back((v[4] * v[8] - v[5] * v[7]) / d);
        wa.push_back((v[2] * v[7] - v[1] * v[8]) / d);
        wa.push_back((v[1] * v[5] - v[2] * v[4]) / d);
        wa.push_back((v[5] * v[6] - v[3] * v[8]) / d);
        wa.push_back((v[0] * v[8] - v[2] * v[6]) / d);
        wa.push_back((v[2] * v[3] - v[0] * v[5]) / d);
        wa.push_back((v[3] * v[7] - v[4] * v[6]) / d);
        wa.push_back((v[1] * v[6] - v[0] * v[7]) / d);
        wa.push_back((v[0] * v[4] - v[1] * v[3]) / d);
    }
    try {
        vx::serie_is(algebra::inv(Serie(9, a, 3)), 9, 3, wa);
    } catch (const std::exception &) {
    }
}

void inv_symmetric_items() {
    unsigned n = vx::pos();
    Array a = vx::array(6 * n), want;
    for (unsigned i = 0; i < n; ++i) {
        double xx = a[6 * i], xy = a[6 * i + 1], xz = a[6 * i + 2], yy = a[6 * i + 3], yz = a[6 * i + 4], zz = a[6 * i + 5];
        double m[9] = {xx, xy, xz, xy, yy, yz, xz, yz, zz};
        double d = determinant(m);
        want.push_back((yy * zz - yz * yz) / d);
        want.push_back((xz * yz - xy * zz) / d);
        want.push_back((xy * yz - xz * yy) / d);
        want.push_back((xx * zz - xz * xz) / d);
        want.push_back((xy * xz - xx * yz) / d);
        want.push_back((xx * yy - xy * xy) / d);
    }
    try {
        vx::serie_is(algebra::inv(Serie(6, a, 3)), 6, 3, want);
    } catch (const std::exception &) {
    }
}

void inv_singular_full() {
    Array m = vx::array(9);
    vx::assume(std::abs(determinant(m.data())) < 1e-10);
    VX_REJECTS(algebra::inv(Serie(9, m, 3)));
}

void inv_singular_symmetric() {
    Array p = vx::array(6);
    Array m{p[0], p[1], p[2], p[1], p[3], p[4], p[2], p[4], p[5]};
    vx::assume(std::abs(determinant(m.data())) < 1e-10);
    VX_REJECTS(algebra::inv(Serie(6, p, 3)));
}

void inv_second_singular() {
    Array m = vx::array(9), l = vx::array(9);
    vx::assume(std::abs(determinant(m.data())) < 1e-10);
    Array a(l);
    vx::append(a, m);
    VX_REJECTS(algebra::inv(Serie(9, a, 3)));
}

void inv_of_other_sizes() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    vx::assume(!(dim == 3 && k == 6));
    vx::assume(!(dim == 3 && k == 9));
    bool refused = false;
    try {
        refused = algebra::inv(Serie(k, vx::array(n * k), dim)).asArray().size() == 0;
    } catch (const std::exception &) {
        refused = true;
    }
    vx::holds("refused", refused);
}

template <unsigned M> void transposed() {
    unsigned n = vx::pos(), dim = vx::u32();
    Array a = vx::array(M * M * n), want;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned r = 0; r < M; ++r) {
            for (unsigned c = 0; c < M; ++c) {
                want.push_back(a[M * M * i + c * M + r]);
            }
        }
    }
    Serie s(M * M, a, dim);
    vx::serie_is(algebra::transpose(s), M * M, dim, want);
    vx::kept(s, M * M, n, dim, a);
}

void transpose_two() { transposed<2>(); }
void transpose_three() { transposed<3>(); }

void transpose_of_other_sizes() {
    unsigned k = vx::pos(), n = vx::pos();
    vx::assume(k != 4);
    vx::assume(k != 9);
    VX_REJECTS(algebra::transpose(Serie(k, vx::array(n * k))));
}

} // namespace N02
