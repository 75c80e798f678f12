#include "vx.h"
#include "ops.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>

using namespace df;

namespace S01 {

// everything the made function needs has ended when it is called

static auto made_map(double m) {
    auto f = [m](double v, uint32_t) { return v * m; };
    return make_map(f);
}
static auto made_filter(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return make_filter(f);
}
static auto made_reject(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return utils::make_reject(f);
}
static auto made_cut(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return utils::make_cut(f);
}
static auto made_check(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return cond::make_check(f);
}
static auto made_find_all(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return makeFindAll(f);
}
static auto made_find(double m) {
    auto f = [m](double v, uint32_t) { return v > m; };
    return makeFind(f);
}
static auto made_reduce(double m) {
    double start = m;
    auto f = [m](double acc, double v, uint32_t) { return acc + v * m; };
    return make_reduce(f, start);
}
static auto made_pipe(double m) {
    auto mul = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v * m; }, x); };
    auto plus = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v + m; }, x); };
    return make_pipe(mul, plus);
}
static auto made_composition(double m) {
    auto mul = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v * m; }, x); };
    auto plus = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v + m; }, x); };
    return utils::compose(plus, mul);
}
static auto made_choice(double m) {
    auto cnd = [m](double v) { return v > m; };
    auto yes = [m](double v, uint32_t, const Serie &) { return v * m; };
    auto no = [m](double v, uint32_t, const Serie &) { return v + m; };
    return cond::make_if_then_else(cnd, yes, no);
}
static auto made_memo(double m) {
    auto mul = [m](const Serie &x) { return df::map([m](double v, uint32_t) { return v * m; }, x); };
    return utils::memoize(mul);
}

void of_callbacks() {
    unsigned n = vx::u32();
    double m = vx::real();
    Serie x(1, vx::array(n));
    vx::same("map", made_map(m)(x), map([m](double v, uint32_t) { return v * m; }, x));
    vx::same("check", made_check(m)(x), cond::check(x, [m](double v, uint32_t) { return v > m; }));
    vx::same("reduce", made_reduce(m)(x), reduce([m](double a, double v, uint32_t) { return a + v * m; }, x, m));
}

void of_selections() {
    unsigned n = vx::u32();
    double m = vx::real();
    Serie x(1, vx::array(n));
    auto f = [m](double v, uint32_t) { return v > m; };
    vx::same("filter", made_filter(m)(x), filter(f, x));
    vx::same("reject", made_reject(m)(x), utils::reject(f, x));
    vx::same("cut", made_cut(m)(x), utils::cut(f, x));
    vx::same("findAll", made_find_all(m)(x), findAll(f, x));
    auto got = made_find(m)(x), want = find(f, x);
    vx::same("find", got.found, want.found);
    vx::same("find", got.index, want.index);
}

void of_chains() {
    unsigned n = vx::u32();
    double m = vx::real();
    Serie x(1, vx::array(n));
    Serie want = map([m](double v, uint32_t) { return v * m + m; }, x);
    vx::same("pipe", made_pipe(m)(x), want);
    vx::same("composition", made_composition(m)(x), want);
    vx::same("choice", made_choice(m)(x), map([m](double v, uint32_t) { return v > m ? v * m : v + m; }, x));
    auto memo = made_memo(m);
    Serie once = map([m](double v, uint32_t) { return v * m; }, x);
    vx::same("memo", memo(x), once);
    vx::same("memo, again", memo(x), once);
}

// factories with values
static auto with_number(double d) {
    double own = d;
    return math::make_add(own);
}
static auto with_serie(const Serie &s) {
    Serie own = s.clone();
    return math::make_sub(own);
}
static auto with_array(const Array &a) {
    Array own = a;
    return math::make_scale(own);
}
static auto with_normal(const Array &a) {
    Array own = a;
    return algebra::make_dot(own);
}
static auto with_other(const Serie &s) {
    Serie own = s.clone();
    return algebra::make_cross(own);
}
static auto with_sight(const Array &a) {
    Array own = a;
    return geo::make_insar(own);
}
static auto with_fraction(double q) {
    double own = q;
    return stats::make_quantile(own);
}
static auto with_bins(unsigned n) {
    unsigned own = n;
    return stats::make_bins(own);
}
static auto with_tail(const Serie &s) {
    Serie own = s.clone();
    return utils::make_concat(own);
}
static auto with_side(const Serie &s) {
    Serie own = s.clone();
    return utils::make_zip(own);
}

void of_values() {
    unsigned k = vx::pos(), n = vx::u32();
    double d = vx::real();
    Serie v(k, vx::array(n * k)), w(k, vx::array(n * k));
    Array by = vx::array(k);
    vx::same("sub", with_serie(w)(v), math::sub(w, v));
    vx::same("scale", with_array(by)(v), math::scale(v, by));
    vx::same("concat", with_tail(w)(v), utils::concat(w, v));
    Serie x(1, vx::array(n)), y(1, vx::array(n));
    vx::same("add", with_number(d)(x), math::add(x, d));
    vx::same("zip", with_side(x)(y), utils::zip(x, y));
}

void of_directions() {
    unsigned n = vx::u32();
    Serie p(3, vx::array(n * 3)), q(3, vx::array(n * 3));
    Array a = vx::array(3);
    vx::same("dot", with_normal(a)(p), algebra::dot(p, a));
    vx::same("cross", with_other(q)(p), algebra::cross(q, p));
    vx::same("insar", with_sight(a)(p), geo::insar(p, a));
}

void of_statistics() {
    unsigned n = vx::pos();
    Serie x(1, vx::array(n));
    vx::same("quantile", with_fraction(0.25)(x), stats::quantile(x, 0.25));
}

// views
static Matrix matrix_of(const Array &a, unsigned m) {
    Array own = a;
    return Matrix(own, m);
}
static Matrix transposed(const Array &a) { return squaredMatrix(Array(a)).transpose(); }
static Vector vector_of(const Array &a) {
    Array own = a;
    return Vector(own);
}

void matrices() {
    Array a = vx::array(9);
    Matrix m = matrix_of(a, 3), t = transposed(a), s = symSquaredMatrix(vx::array(6)), z = squaredMatrix(Array(a));
    for (unsigned i = 0; i < 3; ++i) {
        for (unsigned j = 0; j < 3; ++j) {
            vx::same("matrix", m.at(i, j), a[i * 3 + j]);
            vx::same("matrix from a list", z.at(i, j), a[i * 3 + j]);
            vx::same("transposed", t.at(i, j), a[j * 3 + i]);
            vx::same("symmetric", s.at(i, j), s.at(j, i));
        }
    }
    vx::same("row", m.multVec(Vector(Array{1, 0, 0})).at(1), a[3]);
    Matrix c = m;
    vx::same("copy", c.at(2, 1), a[7]);
}

void vectors() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Vector v = vector_of(a);
    vx::same("vector", v.array(), a);
    Array kept = vector_of(a).array();
    vx::same("kept", kept, a);
    Matrix m(Array{1, 2, 3, 4}, 2);
    Vector row = m.array();
    vx::same("flat", row.at(3), 4.);
}

// a matrix is a value of its own
void matrix_keeps_its_values() {
    Array a = vx::array(9);
    double first = a[0];
    Matrix m(a, 3);
    a[0] = a[0] + 1;
    vx::same("kept", m.at(0, 0), first);
    a.clear();
    vx::same("kept", m.at(0, 0), first);
}

void vector_keeps_its_values() {
    Array a = vx::array(3);
    double first = a[0];
    Vector v(a);
    a[0] = a[0] + 1;
    vx::same("kept", v.at(0), first);
}

// decomposers
static auto answering(double m) {
    return [m](const Dataframe &f) { return math::add(f["s"], m); };
}

void decomposers() {
    unsigned n = vx::pos();
    double m = vx::real();
    Array a = vx::array(n);
    Dataframe f;
    f.add("s", Serie(1, a));
    Manager mng(f);
    {
        auto cb = answering(m);
        mng.add(new UserDefinedDecomposer<decltype(cb)>(1, "t", std::move(cb)));
    }
    vx::same("answer", mng.serie(1, "t").asArray(), math::add(f["s"], m).asArray());
}

// what a store hands out and takes in are values
void stored() {
    unsigned n = vx::pos();
    Array a = vx::array(n);
    Dataframe f;
    {
        Serie s(1, a);
        f.add("s", s);
    }
    vx::same("stored", f["s"].asArray(), a);
    Serie out = f["s"];
    f.clear();
    vx::same("taken", out.asArray(), a);
}

void results() {
    unsigned k = vx::pos(), n = vx::u32();
    Array a = vx::array(n * k);
    Serie out = [&] {
        Serie own(k, Array(a));
        return utils::concat(own, own);
    }();
    Serie in = [&] {
        Serie own(k, Array(a));
        return own.clone();
    }();
    vx::same("copy", in.asArray(), a);
    Array want = a;
    want.insert(want.end(), a.begin(), a.end());
    vx::same("joined", out.asArray(), want);
}

} // namespace S01
