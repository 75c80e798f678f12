#include "vx.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>

using namespace df;

namespace F02 {

void for_each_number() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumVoid f;
    vx::take();
    forEach(f, s);
    vx::Trace t = vx::take();
    s.forEach(f);
    vx::Trace u = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(a[i], i);
    }
    vx::Trace c = vx::take();
    vx::same("calls", t, c);
    vx::same("calls of the member", u, c);
    vx::kept(s, 1, n, dim, a);
}

void for_each_vector() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecVoid f;
    vx::take();
    forEach(f, s);
    vx::Trace t = vx::take();
    s.forEach(f);
    vx::Trace u = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(vx::item(a, k, i), i);
    }
    vx::Trace c = vx::take();
    vx::same("calls", t, c);
    vx::same("calls of the member", u, c);
    vx::kept(s, k, n, dim, a);
}

void for_each_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, vx::u32()), u(m, b, vx::u32());
    vx::Vec2Void f;
    vx::take();
    forEach(f, s, u);
    vx::Trace t = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(vx::item(a, k, i), vx::item(b, m, i), i);
    }
    vx::same("calls", t, vx::take());
}

void for_each_three() {
    unsigned k = vx::pos(), m = vx::pos(), l = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m), c = vx::array(n * l);
    Serie s(k, a, vx::u32()), u(m, b, vx::u32()), w(l, c, vx::u32());
    vx::Vec3Void f;
    vx::take();
    forEach(f, s, u, w);
    vx::Trace t = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(vx::item(a, k, i), vx::item(b, m, i), vx::item(c, l, i), i);
    }
    vx::same("calls", t, vx::take());
}

void for_each_any() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n);
    Serie s(k, a, dim), u(1, b, dim);
    vx::NumVoid f;
    vx::VecVoid g;
    vx::AnyVoid any;
    vx::take();
    forEach(any, u);
    vx::Trace t1 = vx::take();
    u.forEach(any);
    vx::Trace t2 = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(b[i], i);
    }
    vx::Trace c1 = vx::take();
    vx::same("calls on numbers", t1, c1);
    vx::same("calls of the member on numbers", t2, c1);
    vx::assume(k >= 2);
    vx::take();
    forEach(any, s);
    vx::Trace t3 = vx::take();
    s.forEach(any);
    vx::Trace t4 = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        g(vx::item(a, k, i), i);
    }
    vx::Trace c2 = vx::take();
    vx::same("calls on vectors", t3, c2);
    vx::same("calls of the member on vectors", t4, c2);
}

void for_each_four() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m), c = vx::array(n), d = vx::array(n * 3);
    Serie s(k, a, vx::u32()), u(m, b, vx::u32()), w(1, c, vx::u32()), v(3, d, vx::u32());
    vx::Vec2Void f;
    vx::take();
    forEach([&](const Array &x, const Array &y, const Array &z, const Array &q, uint32_t i) {
        f(x, y, i);
        f(z, q, i);
    }, s, u, w, v);
    vx::Trace t = vx::take();
    for (uint32_t i = 0; i < n; ++i) {
        f(vx::item(a, k, i), vx::item(b, m, i), i);
        f(Array{c[i]}, vx::item(d, 3, i), i);
    }
    vx::same("calls", t, vx::take());
}

void for_each_wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k), b = vx::array(n);
    Serie s(k, a, vx::u32()), u(1, b, vx::u32());
    vx::NumVoid f;
    vx::VecVoid g;
    vx::take();
    VX_REJECTS(forEach(f, s));
    VX_REJECTS(s.forEach(f));
    VX_REJECTS(forEach(g, u));
    VX_REJECTS(u.forEach(g));
}

void reduce_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    double x = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::Fold1 f;
    vx::take();
    double r = reduce(f, s, x);
    vx::Trace t = vx::take();
    double r2 = s.reduce(f, x);
    vx::Trace t2 = vx::take();
    double want = x;
    for (uint32_t i = 0; i < n; ++i) {
        want = f(want, a[i], i);
    }
    vx::Trace c = vx::take();
    vx::same("result", r, want);
    vx::same("calls", t, c);
    vx::same("result of the member", r2, want);
    vx::same("calls of the member", t2, c);
    vx::kept(s, 1, n, dim, a);
}

void reduce_sum() {
    unsigned n = vx::u32();
    double x = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    double r = reduce([](double acc, double v, uint32_t) { return acc + v; }, s, x);
    double r2 = s.reduce([](double acc, double v, uint32_t i) { return acc - v * i; }, x);
    double want = x, want2 = x;
    for (uint32_t i = 0; i < n; ++i) {
        want += a[i];
        want2 -= a[i] * i;
    }
    vx::same("sum", r, want);
    vx::same("difference", r2, want2);
}

void reduce_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::pos();
    Array a = vx::array(n * k), x = vx::array(m);
    Serie s(k, a, vx::u32());
    vx::FoldA f;
    vx::take();
    Serie r = reduce(f, s, x);
    vx::Trace t = vx::take();
    Array want = x;
    for (uint32_t i = 0; i < n; ++i) {
        want = f(want, vx::item(a, k, i), i);
    }
    vx::same("calls", t, vx::take());
    vx::same("values", r.asArray(), want);
}

void reduce_vector_sum() {
    unsigned n = vx::u32(), dim = vx::u32();
    double x = vx::real(), y = vx::real();
    Array a = vx::array(n * 2);
    Serie s(2, a, dim);
    auto f = [](const Array &acc, const Array &v, uint32_t) { return Array{acc[0] + v[0], acc[1] - v[1]}; };
    Serie r = reduce(f, s, Array{x, y});
    Serie q = s.reduce(f, Array{x, y});
    double p0 = x, p1 = y;
    for (uint32_t i = 0; i < n; ++i) {
        p0 += a[i * 2];
        p1 -= a[i * 2 + 1];
    }
    vx::serie_is(r, 2, Array{p0, p1});
    vx::same("count", r.count(), 1u);
    vx::serie_is(q, 2, Array{p0, p1});
}

void reduce_triples() {
    unsigned n = vx::u32(), dim = vx::u32();
    double x = vx::real(), y = vx::real(), z = vx::real();
    Array a = vx::array(n * 3);
    Serie s(3, a, dim);
    auto f = [](const Array &acc, const Array &v, uint32_t i) { return Array{acc[0] + v[2], acc[1] * 2 + v[1] * i, acc[2] - v[0]}; };
    Serie r = reduce(f, s, Array{x, y, z});
    double p0 = x, p1 = y, p2 = z;
    for (uint32_t i = 0; i < n; ++i) {
        p0 += a[i * 3 + 2];
        p1 = p1 * 2 + a[i * 3 + 1] * i;
        p2 -= a[i * 3];
    }
    vx::serie_is(r, 3, Array{p0, p1, p2});
    vx::same("count", r.count(), 1u);
    vx::kept(s, 3, n, dim, a);
}

void reduce_wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k);
    Serie s(k, a, vx::u32());
    vx::Fold1 f;
    vx::take();
    VX_REJECTS(reduce(f, s, 0.0));
    VX_REJECTS(s.reduce(f, 0.0));
}

void check_numbers() {
    unsigned n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n);
    Serie s(1, a, dim);
    vx::NumBool f;
    vx::take();
    Serie r = cond::check(s, f);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(a[i], i) ? 1 : 0);
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, want);
    vx::kept(s, 1, n, dim, a);
}

void check_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::VecBool f;
    vx::take();
    Serie r = cond::check(s, f);
    vx::Trace t = vx::take();
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i), i) ? 1 : 0);
    }
    vx::same("calls", t, vx::take());
    vx::serie_is(r, 1, want);
    vx::kept(s, k, n, dim, a);
}

void check_threshold() {
    unsigned n = vx::u32();
    double x = vx::real();
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    Serie r = cond::check(s, [=](double v, uint32_t) { return v > x; });
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i] > x ? 1 : 0);
    }
    vx::serie_is(r, 1, want);
}

void check_wrong_kind() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(k >= 2);
    Serie s(k, vx::array(n * k));
    vx::NumBool f;
    vx::take();
    VX_REJECTS(cond::check(s, f));
}

void for_each_six() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), d = vx::array(n), e = vx::array(n), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    double got = 0, want = 0;
    uint32_t calls = 0;
    forEach([&](const Array &p, const Array &q, const Array &l, const Array &m, const Array &o, const Array &z, uint32_t i) {
        got += p[0] + 2 * q[0] + 3 * l[0] + 5 * m[0] + 7 * o[0] + 11 * z[0] + i;
        ++calls;
    }, s, t, u, v, w, x);
    for (uint32_t i = 0; i < n; ++i) {
        want += a[i] + 2 * b[i] + 3 * c[i] + 5 * d[i] + 7 * e[i] + 11 * g[i] + i;
    }
    vx::same("calls", calls, n);
    vx::same("seen", got, want);
}

} // namespace F02
