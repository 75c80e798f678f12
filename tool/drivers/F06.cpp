#include "vx.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F06 {

void zip_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    unsigned ds = vx::u32(), du = vx::u32();
    Serie s(k, a, ds), u(m, b, du);
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(want, vx::item(a, k, i));
        vx::append(want, vx::item(b, m, i));
    }
    Serie z = utils::zip(s, u);
    vx::serie_is(z, k + m, want);
    vx::same("count", z.count(), n);
    Serie y = utils::zipVector(Series{s, u});
    vx::serie_is(y, k + m, want);
    vx::same("count", y.count(), n);
    vx::kept(s, k, n, ds, a);
    vx::kept(u, m, n, du, b);
}

void zip_three() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n), c = vx::array(n * m);
    Serie s(k, a, vx::u32()), u(1, b, vx::u32()), w(m, c, vx::u32());
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(want, vx::item(a, k, i));
        want.push_back(b[i]);
        vx::append(want, vx::item(c, m, i));
    }
    vx::serie_is(utils::zip(s, u, w), k + 1 + m, want);
    vx::serie_is(utils::zipVector(Series{s, u, w}), k + 1 + m, want);
}

void zip_numbers() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n);
    Serie s(1, a, vx::u32()), u(1, b, vx::u32()), w(1, c, vx::u32());
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i]);
        want.push_back(b[i]);
        want.push_back(c[i]);
    }
    vx::serie_is(utils::zip(s, u, w), 3, want);
    vx::serie_is(utils::zipVector(Series{s, u, w}), 3, want);
    vx::serie_is(utils::zip(s), 1, a);
}

void unzip_two() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m), z;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(z, vx::item(a, k, i));
        vx::append(z, vx::item(b, m, i));
    }
    Serie s(k + m, z);
    Series r = utils::unzip(s, {k, m});
    vx::same("series", r.size(), std::size_t(2));
    vx::serie_is(r[0], k, a);
    vx::serie_is(r[1], m, b);
    vx::same("count", r[0].count(), n);
    vx::same("count", r[1].count(), n);
    vx::same("F10:values", s.asArray(), z);
}

void unzip_three() {
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n), b = vx::array(n * k), c = vx::array(n), z;
    for (uint32_t i = 0; i < n; ++i) {
        z.push_back(a[i]);
        vx::append(z, vx::item(b, k, i));
        z.push_back(c[i]);
    }
    Series r = utils::unzip(Serie(k + 2, z), {1, k, 1});
    vx::same("series", r.size(), std::size_t(3));
    vx::serie_is(r[0], 1, a);
    vx::serie_is(r[1], k, b);
    vx::serie_is(r[2], 1, c);
}

void unzip_undoes_zip() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * m);
    Serie s(k, a, vx::u32()), u(m, b, vx::u32());
    Series r = utils::unzip(utils::zip(s, u), {k, m});
    vx::serie_is(r[0], k, a);
    vx::serie_is(r[1], m, b);
    Series q = utils::unzip(utils::zipVector(Series{s, u}), {k, m});
    vx::serie_is(q[0], k, a);
    vx::serie_is(q[1], m, b);
}

void rejected() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), l = vx::u32(), x = vx::u32(), y = vx::u32();
    Serie s(k, vx::array(n * k)), u(m, vx::array(l * m)), none, w(m, vx::array(n * m));
    VX_REJECTS(utils::zip(none));
    VX_REJECTS(utils::zip(s, none));
    VX_REJECTS(utils::zip(none, s));
    VX_REJECTS(utils::zipVector(Series{s, none}));
    VX_REJECTS(utils::zipVector(Series{none}));
    VX_REJECTS(utils::unzip(s, {}));
    {
        vx::assume(x + y != k);
        VX_REJECTS(utils::unzip(s, {x, y}));
        VX_REJECTS(utils::unzip(s, {k, m}));
        VX_REJECTS(utils::unzip(s, {k, 1}));
    }
    vx::assume(n != l);
    VX_REJECTS(utils::zip(s, u));
    VX_REJECTS(utils::zip(s, w, u));
    VX_REJECTS(utils::zipVector(Series{s, u}));
    VX_REJECTS(utils::zipVector(Series{s, w, u}));
}

void zip_six() {
    unsigned n = vx::u32();
    Array a = vx::array(n), b = vx::array(n), c = vx::array(n), d = vx::array(n), e = vx::array(n), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    Array want;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(want, Array{a[i], b[i], c[i], d[i], e[i], g[i]});
    }
    vx::assume(n > 0);
    vx::serie_is(utils::zip(s, t, u, v, w, x), 6, want);
    vx::serie_is(utils::zipVector(Series{s, t, u, v, w, x}), 6, want);
    Array five;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(five, Array{a[i], b[i], c[i], d[i], e[i]});
    }
    vx::serie_is(utils::zip(s, t, u, v, w), 5, five);
    vx::serie_is(utils::zipVector(Series{s, t, u, v, w}), 5, five);
}

} // namespace F06
