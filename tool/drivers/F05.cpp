#include "vx.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>

using namespace df;

namespace F05 {

void concat_two() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * k);
    Serie s(k, a, dim), u(k, b, dim2);
    Array want = a;
    vx::append(want, b);
    vx::serie_is(utils::concat(s, u), k, dim, want);
    vx::serie_is(utils::concat(Series{s, u}), k, dim, want);
    vx::serie_is(merge(s, u), k, dim, want);
    vx::serie_is(merge(s, u, true), k, dim, want);
    vx::serie_is(merge(true, s, u), k, dim, want);
    vx::kept(s, k, n, dim, a);
    vx::kept(u, k, m, dim2, b);
}

void concat_three() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), l = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * k), c = vx::array(l * k);
    Serie s(k, a, dim), u(k, b, dim), w(k, c, dim);
    Array want = a;
    vx::append(want, b);
    vx::append(want, c);
    vx::serie_is(utils::concat(s, u, w), k, dim, want);
    vx::serie_is(utils::concat(Series{s, u, w}), k, dim, want);
    vx::serie_is(merge(true, s, u, w), k, dim, want);
}

void concat_more() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), l = vx::u32(), h = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * k), c = vx::array(l * k), d = vx::array(h * k);
    Serie s(k, a, dim), u(k, b, vx::u32()), w(k, c, vx::u32()), v(k, d, vx::u32());
    Array four = a;
    vx::append(four, b);
    vx::append(four, c);
    vx::append(four, d);
    vx::serie_is(utils::concat(s, u, w, v), k, dim, four);
    vx::serie_is(utils::concat(Series{s, u, w, v}), k, dim, four);
    vx::serie_is(merge(true, s, u, w, v), k, dim, four);
    Array five = four;
    vx::append(five, b);
    vx::serie_is(utils::concat(s, u, w, v, u), k, dim, five);
    vx::serie_is(utils::concat(Series{s, u, w, v, u}), k, dim, five);
    vx::serie_is(merge(true, s, u, w, v, u), k, dim, five);
}

void concat_itself() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    Array two = a;
    vx::append(two, a);
    vx::serie_is(utils::concat(s, s), k, dim, two);
    vx::serie_is(utils::concat(Series{s, s}), k, dim, two);
    vx::serie_is(merge(s, s), k, dim, two);
    vx::serie_is(merge(true, s, s), k, dim, two);
    Array twice;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(twice, vx::item(a, k, i));
        vx::append(twice, vx::item(a, k, i));
    }
    vx::serie_is(merge(s, s, false), k, dim, twice);
    vx::serie_is(merge(false, s, s), k, dim, twice);
}

void concat_one() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    vx::serie_is(utils::concat(s), k, dim, a);
    vx::serie_is(merge(true, s), k, dim, a);
    vx::serie_is(merge(false, s), k, dim, a);
}

static Array interleaved(const Array &a, unsigned n, const Array &b, unsigned m, unsigned k) {
    Array r;
    for (uint32_t i = 0; i < (n > m ? n : m); ++i) {
        if (i < n) {
            vx::append(r, vx::item(a, k, i));
        }
        if (i < m) {
            vx::append(r, vx::item(b, k, i));
        }
    }
    return r;
}

void interleave_two() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * k);
    Serie s(k, a, dim), u(k, b, dim2);
    Array want = interleaved(a, n, b, m, k);
    vx::serie_is(merge(s, u, false), k, dim, want);
    vx::serie_is(merge(false, s, u), k, dim, want);
    vx::kept(s, k, n, dim, a);
    vx::kept(u, k, m, dim2, b);
}

void interleave_numbers() {
    unsigned n = vx::u32(), m = vx::u32(), dim = vx::u32();
    Array a = vx::array(n), b = vx::array(m);
    Serie s(1, a, dim), u(1, b, dim);
    Array want = interleaved(a, n, b, m, 1);
    vx::serie_is(merge(s, u, false), 1, dim, want);
    vx::serie_is(merge(false, s, u), 1, dim, want);
}

void interleave_equal() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k), c = vx::array(n * k);
    Serie s(k, a, dim), u(k, b, dim), w(k, c, dim);
    Array want, want3;
    for (uint32_t i = 0; i < n; ++i) {
        vx::append(want, vx::item(a, k, i));
        vx::append(want, vx::item(b, k, i));
        vx::append(want3, vx::item(a, k, i));
        vx::append(want3, vx::item(b, k, i));
        vx::append(want3, vx::item(c, k, i));
    }
    vx::serie_is(merge(s, u, false), k, dim, want);
    vx::serie_is(merge(false, s, u), k, dim, want);
    vx::serie_is(merge(false, s, u, w), k, dim, want3);
}

void interleave_three() {
    unsigned k = vx::pos(), n = vx::u32(), m = vx::u32(), l = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * k), c = vx::array(l * k);
    Serie s(k, a, dim), u(k, b, dim), w(k, c, dim);
    unsigned top = n;
    if (m > top) {
        top = m;
    }
    if (l > top) {
        top = l;
    }
    Array want;
    for (uint32_t i = 0; i < top; ++i) {
        if (i < n) {
            vx::append(want, vx::item(a, k, i));
        }
        if (i < m) {
            vx::append(want, vx::item(b, k, i));
        }
        if (i < l) {
            vx::append(want, vx::item(c, k, i));
        }
    }
    vx::serie_is(merge(false, s, u, w), k, dim, want);
}

void different_item_sizes() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32(), l = vx::u32();
    vx::assume(k != m);
    Serie s(k, vx::array(n * k)), u(m, vx::array(l * m));
    VX_REJECTS(utils::concat(s, u));
    VX_REJECTS(utils::concat(Series{s, u}));
    VX_REJECTS(utils::concat(Series{s, s, u}));
    VX_REJECTS(merge(s, u));
    VX_REJECTS(merge(s, u, false));
    VX_REJECTS(merge(true, s, u));
    VX_REJECTS(merge(false, s, u));
    VX_REJECTS(merge(true, s, s, u));
    VX_REJECTS(merge(false, s, s, u));
    VX_REJECTS(merge(false, s, u, s));
}

void invalid() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie s(k, vx::array(n * k)), none;
    VX_REJECTS(utils::concat(s, none));
    VX_REJECTS(utils::concat(none, s));
    VX_REJECTS(utils::concat(none));
}

// six series, interleaved; two of them end sooner
void interleave_six() {
    unsigned n = vx::u32(), m = vx::u32();
    vx::assume(m < n);
    Array a = vx::array(n), b = vx::array(m), c = vx::array(n), d = vx::array(n), e = vx::array(m), g = vx::array(n);
    Serie s(1, a), t(1, b), u(1, c), v(1, d), w(1, e), x(1, g);
    Array want, all = a;
    for (uint32_t i = 0; i < n; ++i) {
        want.push_back(a[i]);
        if (i < m) {
            want.push_back(b[i]);
        }
        want.push_back(c[i]);
        want.push_back(d[i]);
        if (i < m) {
            want.push_back(e[i]);
        }
        want.push_back(g[i]);
    }
    vx::serie_is(merge(false, s, t, u, v, w, x), 1, want);
    vx::append(all, b);
    vx::append(all, c);
    vx::append(all, d);
    vx::append(all, e);
    vx::append(all, g);
    vx::serie_is(merge(true, s, t, u, v, w, x), 1, all);
    vx::serie_is(utils::concat(s, t, u, v, w, x), 1, all);
    vx::serie_is(utils::concat(Series{s, t, u, v, w, x}), 1, all);
}

void late_item_size() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::u32();
    vx::assume(k != m);
    Serie s(k, vx::array(n * k)), t(m, vx::array(n * m));
    VX_REJECTS(merge(false, s, s, s, s, s, s, t));
    VX_REJECTS(merge(true, s, s, s, s, s, s, t));
    VX_REJECTS(merge(true, s, s, s, s, t, s, s));
    VX_REJECTS(utils::concat(Series{s, s, s, s, s, s, t}));
    VX_REJECTS(utils::concat(Series{s, s, s, s, t, s, s}));
}

} // namespace F05
