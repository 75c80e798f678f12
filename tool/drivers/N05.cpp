#include "vx.h"
#include <algorithm>
#include <cmath>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>

using namespace df;

namespace N05 {

void mean_of_numbers() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    double sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        sum += a[i];
    }
    Serie s(1, a, vx::u32());
    Tuple m = stats::mean(s);
    vx::holds("a number", m.isNumber);
    vx::same("mean", m.number, sum / n);
    vx::kept(s, 1, n, 3, a);
}

template <unsigned K> static void mean_of() {
    unsigned n = vx::pos();
    Array a = vx::array(K * n), want;
    for (unsigned j = 0; j < K; ++j) {
        double sum = 0;
        for (unsigned i = 0; i < n; ++i) {
            sum += a[K * i + j];
        }
        want.push_back(sum / n);
    }
    Tuple m = stats::mean(Serie(K, a));
    vx::holds("not a number", !m.isNumber);
    vx::same("mean", m.array, want);
}
void mean_of_pairs() { mean_of<2>(); }
void mean_of_points() { mean_of<3>(); }

void mean_of_vectors() {
    unsigned n = vx::pos(), k = vx::pos();
    vx::assume(k > 1);
    Array a = vx::array(k * n), want;
    for (unsigned j = 0; j < k; ++j) {
        double sum = 0;
        for (unsigned i = 0; i < n; ++i) {
            sum += a[k * i + j];
        }
        want.push_back(sum / n);
    }
    Serie s(k, a, vx::u32());
    Tuple m = stats::mean(s);
    vx::holds("not a number", !m.isNumber);
    vx::same("mean", m.array, want);
    vx::kept(s, k, n, 3, a);
}

void mean_of_few_vectors() {
    unsigned k = vx::pos();
    vx::assume(k > 1);
    Array a = vx::array(3 * k), want;
    for (unsigned j = 0; j < k; ++j) {
        want.push_back((a[j] + a[k + j] + a[2 * k + j]) / 3);
    }
    Tuple m = stats::mean(Serie(k, a));
    vx::same("mean", m.array, want);
}

void covariance() {
    unsigned n = vx::pos();
    Array a = vx::array(n), b = vx::array(n);
    double ma = 0, mb = 0;
    for (unsigned i = 0; i < n; ++i) {
        ma += a[i];
        mb += b[i];
    }
    ma = ma / n;
    mb = mb / n;
    double want = 0;
    for (unsigned i = 0; i < n; ++i) {
        want += (a[i] - ma) * (b[i] - mb);
    }
    Serie s(1, a, vx::u32()), t(1, b, vx::u32());
    vx::same("covariance", stats::covariance(s, t), want / n);
    vx::kept(s, 1, n, 3, a);
    vx::kept(t, 1, n, 3, b);
}

void covariance_of_three() {
    Array a = vx::array(3), b = vx::array(3);
    double ma = (a[0] + a[1] + a[2]) / 3, mb = (b[0] + b[1] + b[2]) / 3;
    double want = ((a[0] - ma) * (b[0] - mb) + (a[1] - ma) * (b[1] - mb) + (a[2] - ma) * (b[2] - mb)) / 3;
    vx::same("covariance", stats::covariance(Serie(1, a), Serie(1, b)), want);
}

void covariance_of_other_series() {
    unsigned k = vx::pos(), n = vx::pos(), m = vx::pos();
    vx::assume(k > 1);
    Serie s(1, vx::array(n)), t(k, vx::array(n * k));
    VX_REJECTS(stats::covariance(s, t));
    VX_REJECTS(stats::covariance(t, s));
    VX_REJECTS(stats::covariance(t, t));
    vx::assume(m != n);
    VX_REJECTS(stats::covariance(s, Serie(1, vx::array(m))));
}

static double quantile_of(Array a, double q) {
    std::sort(a.begin(), a.end());
    double pos = q * (double(a.size()) - 1);
    double low = std::floor(pos);
    unsigned i = static_cast<unsigned>(low);
    if (i + 1 < a.size()) {
        return a[i] + (pos - low) * (a[i + 1] - a[i]);
    }
    return a[i];
}

void quantile() {
    unsigned n = vx::pos();
    double q = vx::real();
    vx::assume(q >= 0);
    vx::assume(q <= 1);
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    vx::same("quantile", stats::quantile(s, q), quantile_of(a, q));
    vx::kept(s, 1, n, 3, a);
}

void quantile_ends() {
    unsigned n = vx::pos();
    Array a = vx::array(n), b(a);
    std::sort(b.begin(), b.end());
    Serie s(1, a, vx::u32());
    vx::same("least", stats::quantile(s, 0), b[0]);
    vx::same("greatest", stats::quantile(s, 1), b[n - 1]);
}

template <unsigned N> static void quantile_few() {
    double q = vx::real();
    vx::assume(q >= 0);
    vx::assume(q <= 1);
    Array a = vx::array(N);
    for (unsigned i = 0; i + 1 < N; ++i) {
        vx::assume(a[i] <= a[i + 1]);
    }
    double want = a[N - 1];
    for (unsigned i = 0; i + 1 < N; ++i) {
        if (q * (N - 1) >= i && q * (N - 1) < i + 1) {
            want = a[i] * (i + 1 - q * (N - 1)) + a[i + 1] * (q * (N - 1) - i);
        }
    }
    vx::same("quantile of sorted values", stats::quantile(Serie(1, a), q), want);
}
void quantile_one() { quantile_few<1>(); }
void quantile_two() { quantile_few<2>(); }
void quantile_three() { quantile_few<3>(); }
void quantile_four() { quantile_few<4>(); }
void quantile_five() { quantile_few<5>(); }

void quartiles() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    vx::same("q25", stats::q25(s), quantile_of(a, 0.25));
    vx::same("q50", stats::q50(s), quantile_of(a, 0.5));
    vx::same("q75", stats::q75(s), quantile_of(a, 0.75));
    vx::same("IQR", stats::IQR(s), quantile_of(a, 0.75) - quantile_of(a, 0.25));
    vx::kept(s, 1, n, 3, a);
}

void quantile_of_other_arguments() {
    unsigned k = vx::pos(), n = vx::pos();
    double q = vx::real(), p = vx::real();
    vx::assume(k > 1);
    vx::assume(p >= 0);
    vx::assume(p <= 1);
    VX_REJECTS(stats::quantile(Serie(k, vx::array(n * k)), p));
    VX_REJECTS(stats::quantile(Serie(), p));
    VX_REJECTS(stats::quantile(Serie(1, 0), p));
    Serie s(1, vx::array(n));
    double r = vx::real();
    vx::assume(q < 0);
    VX_REJECTS(stats::quantile(s, q));
    vx::assume(r > 1);
    VX_REJECTS(stats::quantile(s, r));
    VX_REJECTS(stats::q25(Serie(1, 0)));
    VX_REJECTS(stats::q50(Serie(1, 0)));
    VX_REJECTS(stats::q75(Serie(1, 0)));
    VX_REJECTS(stats::IQR(Serie(1, 0)));
}

} // namespace N05
