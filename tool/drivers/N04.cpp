#include "vx.h"
#include <cmath>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>

using namespace df;

namespace N04 {

static Array entries(const Matrix &m, unsigned n) {
    Array r;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned j = 0; j < n; ++j) {
            r.push_back(m.at(i, j));
        }
    }
    return r;
}

void vector_values() {
    unsigned n = vx::u32(), i = vx::u32();
    vx::assume(i < n);
    Array a = vx::array(n);
    Vector v(a);
    vx::same("array", v.array(), a);
    vx::same("length", v.length(), n);
    vx::same("at", v.at(i), a[i]);
    vx::same("[]", v[i], a[i]);
    vx::same("default", Vector().length(), 0u);
}

void vector_norm() {
    unsigned n = vx::u32();
    Array a = vx::array(n);
    double sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        sum += a[i] * a[i];
    }
    vx::same("norm", Vector(a).norm(), std::sqrt(sum));
    double x = vx::real(), y = vx::real(), z = vx::real();
    vx::same("norm of three", Vector(Array{x, y, z}).norm(), std::sqrt(x * x + y * y + z * z));
}

void vector_normalize() {
    unsigned n = vx::u32();
    Array a = vx::array(n), want;
    double sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        sum += a[i] * a[i];
    }
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[i] / std::sqrt(sum));
    }
    Vector v(a);
    Vector &r = v.normalize();
    vx::same("values", v.array(), want);
    vx::same("returned", r.array(), want);
    vx::holds("itself", &r == &v);
}

void vector_arithmetic() {
    unsigned n = vx::u32();
    double d = vx::real();
    Array a = vx::array(n), b = vx::array(n), sum, dif, pro, sca;
    double dot = 0;
    for (unsigned i = 0; i < n; ++i) {
        sum.push_back(a[i] + b[i]);
        dif.push_back(a[i] - b[i]);
        pro.push_back(a[i] * b[i]);
        sca.push_back(a[i] * d);
        dot += a[i] * b[i];
    }
    Vector w(b), p(a), q(a), r(a), s(a);
    vx::same("add", p.add(w).array(), sum);
    vx::same("add, in place", p.array(), sum);
    vx::same("sub", q.sub(w).array(), dif);
    vx::same("sub, in place", q.array(), dif);
    vx::same("mult", r.mult(w).array(), pro);
    vx::same("mult, in place", r.array(), pro);
    vx::same("scale", s.mult(d).array(), sca);
    vx::same("scale, in place", s.array(), sca);
    vx::same("dot", Vector(a).dot(w), dot);
    vx::same("F10:argument", w.array(), b);
}

void matrix_entries() {
    unsigned m = vx::u32(), i = vx::u32(), j = vx::u32();
    vx::assume(i < m);
    vx::assume(j < m);
    Array a = vx::array(m * m);
    Matrix x(a, m);
    vx::same("at", x.at(i, j), a[i * m + j]);
    vx::same("length", x.length(), m * m);
    vx::same("index", x.index(i, j), i * m + j);
}

void matrix_trace() {
    unsigned m = vx::u32();
    Array a = vx::array(m * m);
    double t = 0;
    for (unsigned i = 0; i < m; ++i) {
        t += a[i * m + i];
    }
    vx::same("trace", Matrix(a, m).trace(), t);
}

// any number of rows
void matrix_symmetric() {
    unsigned m = vx::u32();
    Array a = vx::array(m * m);
    bool sym = true;
    for (unsigned i = 0; i < m; ++i) {
        for (unsigned j = 0; j < m; ++j) {
            if (a[i * m + j] != a[j * m + i]) {
                sym = false;
            }
        }
    }
    vx::same("symmetric", Matrix(a, m).isSymmetric(), sym);
}

void matrix_transposed() {
    unsigned m = vx::u32(), i = vx::u32(), j = vx::u32();
    vx::assume(i < m);
    vx::assume(j < m);
    Array a = vx::array(m * m);
    const Matrix t = Matrix(a, m).transpose();
    vx::same("length", t.length(), m * m);
    vx::same("entry", t.at(i, j), a[j * m + i]);
}

void matrix_times_vector() {
    unsigned m = vx::u32(), i = vx::u32();
    vx::assume(i < m);
    Array a = vx::array(m * m), v = vx::array(m);
    double s = 0;
    for (unsigned j = 0; j < m; ++j) {
        s += a[i * m + j] * v[j];
    }
    const Array w = Matrix(a, m).multVec(Vector(v)).array();
    vx::same("length", w.size(), std::size_t(m));
    vx::same("entry", w[i], s);
}

void matrix_times_matrix() {
    unsigned m = vx::u32(), i = vx::u32(), j = vx::u32();
    vx::assume(i < m);
    vx::assume(j < m);
    Array a = vx::array(m * m), b = vx::array(m * m);
    double s = 0;
    for (unsigned k = 0; k < m; ++k) {
        s += a[i * m + k] * b[k * m + j];
    }
    const Matrix p = Matrix(a, m).multMat(Matrix(b, m));
    vx::same("length", p.length(), m * m);
    vx::same("entry", p.at(i, j), s);
}

template <unsigned M> void fixed() {
    Array a = vx::array(M * M), b = vx::array(M * M), v = vx::array(M), tr, av, ab;
    double trace = 0;
    bool sym = true;
    for (unsigned i = 0; i < M; ++i) {
        trace += a[i * M + i];
        double s = 0;
        for (unsigned j = 0; j < M; ++j) {
            s += a[i * M + j] * v[j];
            tr.push_back(a[j * M + i]);
            double p = 0;
            for (unsigned k = 0; k < M; ++k) {
                p += a[i * M + k] * b[k * M + j];
            }
            ab.push_back(p);
            if (j < i && a[i * M + j] != a[j * M + i]) {
                sym = false;
            }
        }
        av.push_back(s);
    }
    const Matrix x(a, M), y(b, M);
    const Vector w(v);
    vx::same("trace", x.trace(), trace);
    vx::same("entries", entries(x, M), a);
    vx::same("transpose", entries(x.transpose(), M), tr);
    vx::same("symmetric", x.isSymmetric(), sym);
    vx::same("product with vector", x.multVec(w).array(), av);
    vx::same("product", entries(x.multMat(y), M), ab);
    vx::same("product length", x.multMat(y).length(), M * M);
    vx::same("F10:entries", entries(x, M), a);
    vx::same("F10:entries of the argument", entries(y, M), b);
}

void one() { fixed<1>(); }
void two() { fixed<2>(); }
void three() { fixed<3>(); }
void four() { fixed<4>(); }
void five() { fixed<5>(); }
void seven() { fixed<7>(); }

// only the entries above the diagonal are packed when the rest repeats them
template <unsigned M> void packing() {
    Array p = vx::array(M * (M + 1) / 2), full(M * M, 0);
    unsigned k = 0;
    for (unsigned i = 0; i < M; ++i) {
        for (unsigned j = i; j < M; ++j) {
            full[i * M + j] = p[k];
            full[j * M + i] = p[k];
            ++k;
        }
    }
    Matrix x = symSquaredMatrix(p);
    vx::same("length", x.length(), M * M);
    vx::same("entries", entries(x, M), full);
    vx::holds("symmetric", x.isSymmetric());
    vx::same("packed again", x.array().array(), p);
    Matrix y = squaredMatrix(full);
    vx::same("entries of the full matrix", entries(y, M), full);
    vx::same("packed", y.array().array(), p);
    vx::same("trace", x.trace(), y.trace());
}

void packing_one() { packing<1>(); }
void packing_two() { packing<2>(); }
void packing_three() { packing<3>(); }
void packing_four() { packing<4>(); }
void packing_five() { packing<5>(); }
void packing_eight() { packing<8>(); }

void not_symmetric() {
    Array a = vx::array(9);
    vx::assume(a[1] != a[3]);
    vx::same("array", squaredMatrix(a).array().array(), a);
    Array b = vx::array(9);
    vx::assume(b[5] != b[7]);
    vx::same("array, last rows", squaredMatrix(b).array().array(), b);
}

void mismatch() {
    unsigned m = vx::pos(), n = vx::pos();
    vx::assume(m != n);
    Matrix x(vx::array(m * m), m), y(vx::array(n * n), n);
    VX_REJECTS(x.multMat(y));
    VX_REJECTS(x.multVec(Vector(vx::array(n))));
}

} // namespace N04
