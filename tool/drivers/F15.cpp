#include "vx.h"
#include <dataframe/functional/utils/memoize.h>

using namespace df;

namespace F15 {

using F = vx::Stage<1>;

void one_call() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    vx::take();
    Serie w = f(s);
    vx::Trace c = vx::take();
    auto m = utils::memoize(f);
    vx::same("value", m(s), w);
    vx::same("calls", vx::take(), c);
    vx::kept(s, k, n, dim, a);
}

void same_again() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim), t(k, a, dim);
    F f;
    vx::take();
    Serie w = f(s);
    vx::Trace c = vx::take();
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("second", m(s), w);
    vx::same("equal input", m(t), w);
    vx::same("calls", vx::take(), c);
}

// two inputs of the same shape
void other_values() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k), b = vx::array(n * k);
    Serie s(k, a, dim), t(k, b, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("other values", m(t), v);
    vx::same("first again", m(s), w);
}

// one number differs, in one place
void one_number_differs() {
    unsigned dim = vx::u32();
    unsigned n = vx::u32(), i = vx::u32();
    double x = vx::real();
    vx::assume(i < n);
    Array a = vx::array(n), b = a;
    b[i] = x;
    Serie s(1, a, dim), t(1, b, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("other value", m(t), v);
}

void three_numbers() {
    double x = vx::real(), y = vx::real(), z = vx::real(), u = vx::real(), v = vx::real(), w = vx::real();
    Serie s(1, Array{x, y, z}), t(1, Array{u, v, w});
    F f;
    Serie p = f(s), q = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), p);
    vx::same("other", m(t), q);
    vx::same("first again", m(s), p);
}

void swapped() {
    double x = vx::real(), y = vx::real(), z = vx::real();
    Serie s(1, Array{x, y, z}), t(1, Array{z, y, x}), r(1, Array{y, x, z});
    F f;
    Serie p = f(s), q = f(t), o = f(r);
    auto m = utils::memoize(f);
    vx::same("first", m(s), p);
    vx::same("reversed", m(t), q);
    vx::same("two swapped", m(r), o);
}

void close_numbers() {
    F f;
    Serie s(1, Array{1.0, 2.0}), t(1, Array{1.0, 2.0000000001}), r(1, Array{1.0000000001, 2.0}), h(1, Array{100000.125, 2.0}),
        j(1, Array{100000.25, 2.0});
    Serie p = f(s), q = f(t), o = f(r), x = f(h), y = f(j);
    auto m = utils::memoize(f);
    vx::same("first", m(s), p);
    vx::same("close", m(t), q);
    vx::same("close too", m(r), o);
    vx::same("large", m(h), x);
    vx::same("large and close", m(j), y);
}

void digits() {
    F f;
    Serie s(1, Array{1.0, 23.0}), t(1, Array{12.0, 3.0}), r(1, Array{-1.0, 23.0}), e(1, Array{1.0, 2.0, 3.0});
    Serie p = f(s), q = f(t), o = f(r), g = f(e);
    auto m = utils::memoize(f);
    vx::same("first", m(s), p);
    vx::same("same digits", m(t), q);
    vx::same("sign", m(r), o);
    vx::same("same digits, three numbers", m(e), g);
}

void other_shape() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), l = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k * l);
    Serie s(k, a, dim), t(l, a, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("other item size", m(t), v);
}

void other_dimension() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), dim2 = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim), t(k, a, dim2);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("other dimension", m(t), v);
}

void other_count() {
    unsigned dim = vx::u32();
    unsigned n = vx::u32(), c = vx::u32();
    Array a = vx::array(n), b;
    vx::assume(c <= n);
    for (unsigned i = 0; i < c; ++i) {
        b.push_back(a[i]);
    }
    Serie s(1, a, dim), t(1, b, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("beginning only", m(t), v);
}

void empty() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), l = vx::pos();
    Serie s(k, 0, dim), t(l, 0, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    vx::same("other empty Serie", m(t), v);
}

// results without items are results too
void nothing() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    auto none = [f](const Serie &x) { f(x); return Serie(); };
    auto no_item = [f](const Serie &x) { f(x); return Serie(x.itemSize(), 0, x.dimension()); };
    vx::take();
    f(s);
    vx::Trace one = vx::take();
    auto m = utils::memoize(none);
    auto h = utils::memoize(no_item);
    vx::same("invalid", m(s), Serie());
    vx::same("invalid again", m(s), Serie());
    vx::same("calls", vx::take(), one);
    vx::same("empty", h(s), Serie(k, 0, dim));
    vx::same("empty again", h(s), Serie(k, 0, dim));
    vx::same("more calls", vx::take(), one);
}

void cleared() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    vx::take();
    Serie w = f(s);
    vx::Trace one = vx::take();
    f(s);
    f(s);
    vx::Trace two = vx::take();
    auto m = utils::memoize(f);
    vx::same("first", m(s), w);
    m.clear_cache();
    vx::same("calls before", vx::take(), one);
    vx::same("after clearing", m(s), w);
    vx::same("calls after", vx::take(), one);
    vx::same("once more", m(s), w);
    vx::holds("remembered", m(s).count() == w.count());
}

// the memory belongs to one memoized function
void two_functions() {
    unsigned dim = vx::u32();
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    vx::Stage<2> g;
    Serie w = f(s), v = g(s);
    auto m = utils::memoize(f);
    auto h = utils::memoize(g);
    vx::same("first", m(s), w);
    vx::same("second", h(s), v);
    vx::same("first again", m(s), w);
    auto c = utils::memoize([&](const Serie &x) { return g(f(x)); });
    vx::same("lambda", c(s), g(f(s)));
}

// changing what was returned does not change what is remembered
void result_is_a_copy() {
    unsigned n = vx::u32();
    double x = vx::real();
    vx::assume(n >= 1);
    Serie s(1, vx::array(n));
    F f;
    Serie w = f(s);
    auto m = utils::memoize(f);
    Serie r = m(s);
    if (r.asArray().size() > 0) {
        r.setScalar(0, x);
    }
    vx::same("remembered", m(s), w);
}

// the input may change afterwards
void input_changes() {
    unsigned dim = vx::u32();
    unsigned n = vx::u32();
    double x = vx::real();
    vx::assume(n >= 1);
    Array a = vx::array(n), b = a;
    b[0] = x;
    Serie s(1, a, dim), t(1, b, dim);
    F f;
    Serie w = f(s), v = f(t);
    auto m = utils::memoize(f);
    vx::same("before", m(s), w);
    s.setScalar(0, x);
    vx::same("after", m(s), v);
}

} // namespace F15
