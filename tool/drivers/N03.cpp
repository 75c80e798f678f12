#include "vx.h"
#include <cmath>
#include <dataframe/functional/algebra/eigen.h>
#include <tuple>

using namespace df;

namespace N03 {

// eigenSystem is the pair of eigenValues and eigenVectors
template <unsigned K, unsigned DIM> void agree() {
    unsigned n = vx::pos();
    Array a = vx::array(K * n);
    Serie s(K, a, DIM);
    auto sys = algebra::eigenSystem(s);
    vx::kept(s, K, n, DIM, a);
    Serie values = algebra::eigenValues(s);
    vx::kept(s, K, n, DIM, a);
    Serie vectors = algebra::eigenVectors(s);
    vx::kept(s, K, n, DIM, a);
    vx::same("values", std::get<0>(sys).asArray(), values.asArray());
    vx::same("values, itemSize", std::get<0>(sys).itemSize(), DIM);
    vx::same("values, count", std::get<0>(sys).count(), n);
    vx::same("values alone, itemSize", values.itemSize(), DIM);
    vx::same("values alone, count", values.count(), n);
    vx::same("vectors", std::get<1>(sys).asArray(), vectors.asArray());
    vx::same("vectors, itemSize", std::get<1>(sys).itemSize(), DIM * DIM);
    vx::same("vectors, count", std::get<1>(sys).count(), n);
    vx::same("vectors alone, itemSize", vectors.itemSize(), DIM * DIM);
    vx::same("vectors alone, count", vectors.count(), n);
}

void agree_2d() { agree<3, 2>(); }
void agree_3d() { agree<6, 3>(); }

// diagonal matrices: the entries themselves, greatest first, and the axes
template <unsigned D> void diagonal() {
    unsigned n = vx::pos();
    Array d = vx::array(D * n), a;
    for (unsigned i = 0; i < n; ++i) {
        for (unsigned r = 0; r < D; ++r) {
            for (unsigned c = r; c < D; ++c) {
                a.push_back(r == c ? d[D * i + r] : 0.0);
            }
        }
    }
    Serie s(D * (D + 1) / 2, a, D);
    Array wv, wx;
    for (unsigned i = 0; i < n; ++i) {
        double v[D];
        unsigned at[D];
        for (unsigned j = 0; j < D; ++j) {
            v[j] = d[D * i + j];
            at[j] = j;
        }
        for (unsigned j = 0; j + 1 < D; ++j) {
            for (unsigned k = j + 1; k < D; ++k) {
                if (v[j] < v[k]) {
                    double x = v[j];
                    v[j] = v[k];
                    v[k] = x;
                    unsigned z = at[j];
                    at[j] = at[k];
                    at[k] = z;
                }
            }
        }
        for (unsigned j = 0; j < D; ++j) {
            wv.push_back(v[j]);
            for (unsigned k = 0; k < D; ++k) {
                wx.push_back(at[j] == k ? 1.0 : 0.0);
            }
        }
    }
    vx::same("values", algebra::eigenValues(s).asArray(), wv);
    auto sys = algebra::eigenSystem(s);
    vx::same("system, values", std::get<0>(sys).asArray(), wv);
}

void diagonal_2d() { diagonal<2>(); }
void diagonal_3d() { diagonal<3>(); }

// the axes, for entries that differ
void axes_2d() {
    double x = vx::real(), y = vx::real();
    vx::assume(x != y);
    Serie s(3, Array{x, 0, y}, 2);
    Array want = x > y ? Array{1, 0, 0, 1} : Array{0, 1, 1, 0};
    vx::same("vectors", algebra::eigenVectors(s).asArray(), want);
    auto sys = algebra::eigenSystem(s);
    vx::same("system, vectors", std::get<1>(sys).asArray(), want);
}

void axes_3d() {
    double v[3] = {vx::real(), vx::real(), vx::real()};
    vx::assume(v[0] != v[1]);
    vx::assume(v[1] != v[2]);
    vx::assume(v[0] != v[2]);
    Serie s(6, Array{v[0], 0, 0, v[1], 0, v[2]}, 3);
    Array want(9, 0);
    for (unsigned j = 0; j < 3; ++j) {
        unsigned rank = 0;
        for (unsigned k = 0; k < 3; ++k) {
            if (v[k] > v[j]) {
                ++rank;
            }
        }
        for (unsigned r = 0; r < 3; ++r) {
            if (rank == r) {
                want[3 * r + j] = 1;
            }
        }
    }
    vx::same("vectors", algebra::eigenVectors(s).asArray(), want);
    auto sys = algebra::eigenSystem(s);
    vx::same("system, vectors", std::get<1>(sys).asArray(), want);
}

// a block of two is left to the solver, the third axis is its own
void refused() {
    unsigned k = vx::pos(), n = vx::pos(), dim = vx::u32();
    vx::assume(!(dim == 2 && k == 3));
    vx::assume(!(dim == 3 && k == 6));
    Serie s(k, vx::array(n * k), dim);
    VX_REJECTS(algebra::eigenValues(s));
    VX_REJECTS(algebra::eigenVectors(s));
    VX_REJECTS(algebra::eigenSystem(s));
}

// values come in decreasing order, whatever the iteration found
template <unsigned K, unsigned DIM> void order() {
    Serie s(K, vx::array(K), DIM);
    Array v = algebra::eigenValues(s).asArray();
    vx::holds("decreasing", v[0] >= v[1]);
    if (DIM == 3) {
        vx::holds("decreasing", v[1] >= v[DIM - 1]);
    }
}
void order_2d() { order<3, 2>(); }
void order_3d() { order<6, 3>(); }

} // namespace N03
