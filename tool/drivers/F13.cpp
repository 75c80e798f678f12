#include "vx.h"
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/compose.h>

using namespace df;

namespace F13 {

// stages nothing is known about, told apart by their type
using F = vx::Stage<1>;
using G = vx::Stage<2>;
using H = vx::Stage<3>;
using K = vx::Stage<4>;
struct Num { double operator()(double) const; };
struct Num2 { double operator()(double) const; };
struct Num3 { double operator()(double) const; };
struct Two { double operator()(double, double) const; };

void pipe_two_to_four() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    G g;
    H h;
    K x;
    vx::take();
    vx::Trace none = vx::take();
    Serie w1 = f(s);
    vx::Trace c1 = vx::take();
    Serie w2 = g(f(s));
    vx::Trace c2 = vx::take();
    Serie w3 = h(g(f(s)));
    vx::Trace c3 = vx::take();
    Serie w4 = x(h(g(f(s))));
    vx::Trace c4 = vx::take();
    vx::same("one", df::pipe(s, f), w1);
    vx::same("calls of one", vx::take(), c1);
    vx::same("two", df::pipe(s, f, g), w2);
    vx::same("calls of two", vx::take(), c2);
    vx::same("three", df::pipe(s, f, g, h), w3);
    vx::same("calls of three", vx::take(), c3);
    vx::same("four", df::pipe(s, f, g, h, x), w4);
    vx::same("calls of four", vx::take(), c4);
    vx::same("member, one", s.pipe(f), w1);
    vx::same("calls of member, one", vx::take(), c1);
    vx::same("member, two", s.pipe(f, g), w2);
    vx::same("calls of member, two", vx::take(), c2);
    vx::same("member, four", s.pipe(f, g, h, x), w4);
    vx::same("calls of member, four", vx::take(), c4);
    auto p1 = df::make_pipe(f);
    auto p2 = df::make_pipe(f, g);
    auto p4 = df::make_pipe(f, g, h, x);
    vx::same("no calls yet", vx::take(), none);
    vx::same("made, one", p1(s), w1);
    vx::same("calls of made, one", vx::take(), c1);
    vx::same("made, two", p2(s), w2);
    vx::same("calls of made, two", vx::take(), c2);
    vx::same("made, four", p4(s), w4);
    vx::same("calls of made, four", vx::take(), c4);
    vx::same("made, again", p4(s), w4);
    vx::kept(s, k, n, dim, a);
}

// as many stages as there are letters left
using L5 = vx::Stage<5>;
using L6 = vx::Stage<6>;
using L7 = vx::Stage<7>;

template <class... Ls> static void many(const Serie &s, const Serie &in_order, const Serie &backwards, const Ls &...ls) {
    vx::same("piped", df::pipe(s, ls...), in_order);
    vx::same("member", s.pipe(ls...), in_order);
    vx::same("made", df::make_pipe(ls...)(s), in_order);
    vx::same("composed", utils::compose(ls...)(s), backwards);
}

void five_to_seven() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    G g;
    H h;
    K x;
    L5 p;
    L6 q;
    L7 r;
    many(s, p(x(h(g(f(s))))), f(g(h(x(p(s))))), f, g, h, x, p);
    many(s, q(p(x(h(g(f(s)))))), f(g(h(x(p(q(s)))))), f, g, h, x, p, q);
    many(s, r(q(p(x(h(g(f(s))))))), f(g(h(x(p(q(r(s))))))), f, g, h, x, p, q, r);
}

void pipe_of_pipes() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie s = vx::serie(k, n, vx::u32());
    F f;
    G g;
    H h;
    vx::take();
    Serie w = h(g(f(s)));
    vx::Trace c = vx::take();
    auto p = df::make_pipe(f, g);
    vx::same("nested", df::pipe(s, p, h), w);
    vx::same("calls", vx::take(), c);
    auto q = df::make_pipe(p, h);
    vx::same("nested made", q(s), w);
    vx::same("calls of made", vx::take(), c);
}

void pipe_captures() {
    unsigned n = vx::u32();
    double m = vx::real(), p = vx::real();
    Array a = vx::array(n), want;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(a[i] * m + p);
    }
    Serie s(1, a, vx::u32());
    auto mul = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v * m; }, x); };
    auto plus = [p](const Serie &x) { return df::map([p](double v, uint32_t) { return v + p; }, x); };
    vx::serie_is(df::pipe(s, mul, plus), 1, want);
    vx::serie_is(s.pipe(mul, plus), 1, want);
    vx::serie_is(df::make_pipe(mul, plus)(s), 1, want);
    vx::serie_is(df::utils::compose(plus, mul)(s), 1, want);
}

void pipe_to_number() {
    unsigned k = vx::pos(), n = vx::u32();
    Serie s = vx::serie(k, n, vx::u32());
    F f;
    auto size = [](const Serie &x) { return static_cast<double>(x.count()); };
    double w = static_cast<double>(f(s).count());
    vx::same("value", df::pipe(s, f, size), w);
    vx::same("member", s.pipe(f, size), w);
    vx::same("made", df::make_pipe(f, size)(s), w);
}

void pipe_of_number() {
    double v = vx::real();
    Num f;
    Num2 g;
    Num3 h;
    vx::take();
    double w = h(g(f(v)));
    vx::Trace c = vx::take();
    vx::same("value", df::pipe(v, f, g, h), w);
    vx::same("calls", vx::take(), c);
    vx::same("made", df::make_pipe(f, g, h)(v), w);
    vx::same("calls of made", vx::take(), c);
}

void compose_two_to_four() {
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    F f;
    G g;
    H h;
    K x;
    vx::take();
    vx::Trace none = vx::take();
    Serie w2 = f(g(s));
    vx::Trace c2 = vx::take();
    Serie w3 = f(g(h(s)));
    vx::Trace c3 = vx::take();
    Serie w4 = f(g(h(x(s))));
    vx::Trace c4 = vx::take();
    auto p2 = utils::compose(f, g);
    auto p3 = utils::compose(f, g, h);
    auto p4 = utils::compose(f, g, h, x);
    vx::same("no calls yet", vx::take(), none);
    vx::same("two", p2(s), w2);
    vx::same("calls of two", vx::take(), c2);
    vx::same("three", p3(s), w3);
    vx::same("calls of three", vx::take(), c3);
    vx::same("four", p4(s), w4);
    vx::same("calls of four", vx::take(), c4);
    vx::same("again", p3(s), w3);
    vx::kept(s, k, n, dim, a);
}

void compose_arguments() {
    double u = vx::real(), v = vx::real();
    Num f;
    Num2 g;
    Two t;
    vx::take();
    double w = f(g(t(u, v)));
    vx::Trace c = vx::take();
    vx::same("value", utils::compose(f, g, t)(u, v), w);
    vx::same("calls", vx::take(), c);
}

} // namespace F13
