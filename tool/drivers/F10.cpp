#include "vx.h"
#include "ops.h"

using namespace df;

namespace F10 {

// Whatever becomes of the call, both series are as they were.  The series are
// not constant, so that an operation that would bind to them and change them
// is seen.
#define KEEPS(...) \
    do {                                                                                           \
        try {                                                                                      \
            (void)(__VA_ARGS__);                                                                          \
        } catch (const std::exception &) {                                                         \
        }                                                                                          \
        vx::same(#__VA_ARGS__, s.asArray(), a);                                                           \
        vx::holds(#__VA_ARGS__, s.itemSize() == k && s.count() == n && s.dimension() == dim);             \
        vx::same(#__VA_ARGS__, t.asArray(), b);                                                           \
        vx::holds(#__VA_ARGS__, t.itemSize() == l && t.count() == m && t.dimension() == dim2);            \
    } while (0)

// any two series
#define TWO                                                                                        \
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = vx::pos(), m = vx::u32(),          \
             dim2 = vx::u32();                                                                     \
    Array a = vx::array(n *k), b = vx::array(m *l);                                                \
    Serie s(k, a, dim), t(l, b, dim2);

// two of the same shape
#define ALIKE                                                                                      \
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32(), l = k, m = n, dim2 = dim;              \
    Array a = vx::array(n *k), b = vx::array(m *l);                                                \
    Serie s(k, a, dim), t(l, b, dim2);

#define NUMBERS                                                                                    \
    unsigned k = 1, n = vx::u32(), dim = vx::u32(), l = 1, m = n, dim2 = dim;                      \
    Array a = vx::array(n), b = vx::array(m);                                                      \
    Serie s(k, a, dim), t(l, b, dim2);

void arithmetic() {
    ALIKE
    double x = vx::real();
    KEEPS(math::add(s, x));
    KEEPS(math::add(s, t));
    KEEPS(math::add({s, t}));
    KEEPS(math::sub(s, x));
    KEEPS(math::sub(s, t));
    KEEPS(math::sub({s, t}));
    KEEPS(math::mult(s, x));
    KEEPS(math::div(x, s));
    KEEPS(math::negate(s));
}

void arithmetic_any() {
    TWO
    KEEPS(math::add(s, t));
    KEEPS(math::sub(s, t));
    KEEPS(math::sub({s, t}));
    KEEPS(math::mult(s, t));
    KEEPS(math::div(s, t));
}

void scaled() {
    ALIKE
    double x = vx::real();
    Array w = vx::array(k), w0 = w;
    KEEPS(math::scale(s, x));
    KEEPS(math::scale(s, w));
    KEEPS(math::mult(s, t));
    KEEPS(math::div(s, t));
    KEEPS(algebra::dot(s, w));
    vx::same("weights", w, w0);
}

void weighted() {
    ALIKE
    Array w = vx::array(2), w0 = w;
    KEEPS(math::weigthedSum({s, t}, w));
    vx::same("weights", w, w0);
}

void normalized() {
    NUMBERS
    KEEPS(math::normalize(s));
    KEEPS(math::minMax(s));
}

void compared() {
    TWO
    KEEPS(math::equals(s, t));
    KEEPS(math::approximatelyEquals(s, t));
    KEEPS(math::equalsAll(s, t));
    KEEPS(math::approximatelyEqualsAll(s, t));
}

void products() {
    TWO
    KEEPS(algebra::dot(s, t));
    KEEPS(algebra::norm(s));
    KEEPS(algebra::norm2(s));
}

void cross() {
    TWO
    KEEPS(algebra::cross(s, t));
}

void matrices() {
    TWO
    KEEPS(algebra::det(s));
    KEEPS(algebra::inv(s));
    KEEPS(algebra::transpose(s));
}

void eigen_2d() {
    unsigned k = 3, n = vx::u32(), dim = 2, l = 3, m = vx::u32(), dim2 = 2;
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(algebra::eigenValues(s));
    KEEPS(algebra::eigenVectors(s));
    KEEPS(algebra::eigenSystem(s));
}

void eigen_3d() {
    unsigned k = 6, n = vx::u32(), dim = 3, l = 6, m = vx::u32(), dim2 = 3;
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(algebra::eigenValues(s));
}

void eigen_vectors_3d() {
    unsigned k = 6, n = vx::u32(), dim = 3, l = 6, m = vx::u32(), dim2 = 3;
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(algebra::eigenVectors(s));
}

void eigen_systems_3d() {
    unsigned k = 6, n = vx::u32(), dim = 3, l = 6, m = vx::u32(), dim2 = 3;
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(algebra::eigenSystem(s));
}

void eigen_other() {
    TWO
    vx::assume(!(dim == 2 && k == 3));
    vx::assume(!(dim == 3 && k == 6));
    KEEPS(algebra::eigenValues(s));
    KEEPS(algebra::eigenVectors(s));
    KEEPS(algebra::eigenSystem(s));
}

void statistics() {
    TWO
    KEEPS(stats::mean(s));
    KEEPS(stats::covariance(s, t));
}

void quantiles() {
    NUMBERS
    double q = vx::real(), w = vx::real();
    KEEPS(stats::quantile(s, q));
    KEEPS(stats::q25(s));
    KEEPS(stats::q50(s));
    KEEPS(stats::q75(s));
    KEEPS(stats::IQR(s));
    KEEPS(stats::outliers(s, w));
    KEEPS(stats::isOutliers(s, w));
    KEEPS(stats::notOutliers(s, w));
}

void quantiles_of_vectors() {
    TWO
    vx::assume(k > 1);
    double q = vx::real(), w = vx::real();
    KEEPS(stats::quantile(s, q));
    KEEPS(stats::IQR(s));
    KEEPS(stats::outliers(s, w));
    KEEPS(stats::isOutliers(s, w));
    KEEPS(stats::notOutliers(s, w));
}

void histogram() {
    NUMBERS
    unsigned nb = vx::u32();
    double x = vx::real(), y = vx::real();
    KEEPS(stats::bins(s, nb, x, y));
    KEEPS(stats::bins(s, nb));
}

void geometry() {
    TWO
    KEEPS(geo::normals(s, t));
}

void surfaces() {
    unsigned k = 3, n = vx::u32(), dim = vx::u32(), l = 3, m = 2, dim2 = vx::u32();
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(geo::areas(s, t));
}

void radar() {
    TWO
    Array w = vx::array(3), w0 = w;
    double x = vx::real();
    KEEPS(geo::insar(s, w));
    KEEPS(geo::fringes(s, x));
    vx::same("line of sight", w, w0);
}

void selected() {
    TWO
    KEEPS(df::filter(vx::VecBool(), s));
    KEEPS(utils::reject(vx::VecBool(), s));
    KEEPS(df::findAll(vx::VecBool(), s));
    KEEPS(df::find(vx::VecBool(), s));
    KEEPS(utils::cut(vx::VecBool(), s));
    KEEPS(s.filter(vx::VecBool()));
}

void selected_numbers() {
    TWO
    KEEPS(df::filter(vx::NumBool(), s));
    KEEPS(utils::reject(vx::NumBool(), s));
    KEEPS(df::findAll(vx::NumBool(), s));
    KEEPS(df::find(vx::NumBool(), s));
    KEEPS(utils::cut(vx::NumBool(), s));
}

void selected_together() {
    TWO
    KEEPS(df::filter(vx::Vec2Bool(), s, t));
    KEEPS(utils::reject(vx::Vec2Bool(), s, t));
}

struct Both { bool operator()(const Array &x, const Array &y) const { return x[0] > y[0]; } };

void selected_all() {
    TWO
    KEEPS(df::filterAll(Both(), s, t));
    KEEPS(utils::rejectAll(Both(), s, t));
}

void parted() {
    TWO
    unsigned p = vx::u32();
    KEEPS(utils::partition(vx::VecBool(), s));
    KEEPS(utils::partition(vx::NumBool(), s));
    KEEPS(utils::partition_n(p, s));
}

void parted_together() {
    TWO
    unsigned p = vx::u32();
    KEEPS(utils::partition_n(p, s, t));
}

void sorted() {
    TWO
    KEEPS(utils::sort(s));
}

struct Less { bool operator()(double x, double y) const { return x > y; } };

void sorted_by() {
    NUMBERS
    KEEPS(utils::sort(s, Less()));
}

void sorted_vectors_by() {
    TWO
    KEEPS(utils::sort(s, [](const Array &x, const Array &y) { return x[0] < y[0]; }));
}

void joined() {
    TWO
    KEEPS(utils::concat(s, t));
    KEEPS(utils::concat(std::vector<Serie>{s, t}));
    KEEPS(df::merge(s, t));
    KEEPS(df::merge(s, t, false));
}

void joined_many() {
    TWO
    KEEPS(df::merge(true, s, t));
}

void interleaved_many() {
    ALIKE
    KEEPS(df::merge(false, s, t));
}

void zipped() {
    TWO
    KEEPS(utils::zip(s, t));
    KEEPS(utils::zipVector(std::vector<Serie>{s, t}));
}

void unzipped() {
    TWO
    std::vector<uint32_t> sizes{1, k - 1}, sizes0 = sizes;
    KEEPS(utils::unzip(s, sizes));
    vx::same("sizes", sizes.size(), sizes0.size());
}

void mapped() {
    TWO
    KEEPS(df::map(vx::VecNum(), s));
    KEEPS(df::map(vx::VecVec(), s));
    KEEPS(s.map(vx::VecNum()));
}

void mapped_numbers() {
    NUMBERS
    KEEPS(df::map(vx::NumNum(), s));
    KEEPS(df::map(vx::NumVec(), s));
    KEEPS(utils::apply(vx::NumNum(), s));
}

void mapped_together() {
    TWO
    KEEPS(df::map(vx::Vec2Num(), s, t));
    KEEPS(df::map(vx::Vec2Vec(), s, t));
    KEEPS(utils::apply(vx::Vec2Num(), s, t));
}

#define VX_VOID(expr) (expr, 0)

void visited() {
    TWO
    KEEPS(VX_VOID(df::forEach(vx::VecVoid(), s)));
    KEEPS(VX_VOID(df::forEach(vx::NumVoid(), s)));
    KEEPS(VX_VOID(df::forEach(vx::Vec2Void(), s, t)));
    KEEPS(VX_VOID(s.forEach(vx::VecVoid())));
}

void reduced() {
    TWO
    Array z = vx::array(k), z0 = z;
    KEEPS(df::reduce(vx::Fold1(), s, 0));
    KEEPS(df::reduce(vx::FoldA(), s, z));
    KEEPS(s.reduce(vx::FoldA(), z));
    vx::same("initial value", z, z0);
}

void checked() {
    TWO
    KEEPS(df::cond::check(s, vx::VecBool()));
    KEEPS(df::cond::check(s, vx::NumBool()));
}

struct Test { bool operator()(const Array &) const; };
struct Then { double operator()(const Array &, uint32_t, const Serie &) const; };

void chosen() {
    TWO
    KEEPS(df::cond::if_then_else(s, [](const Array &x) { return x[0] > 0; },
                           [](const Array &x, uint32_t, const Serie &) { return x[0]; },
                           [](const Array &, uint32_t i, const Serie &) { return double(i); }));
}

// stages bind to the series as it is
void piped() {
    TWO
    KEEPS(df::pipe(s, vx::Stage<1>()));
    KEEPS(df::pipe(s, vx::Stage<1>(), vx::Stage<2>()));
    KEEPS(s.pipe(vx::Stage<1>()));
    KEEPS(s.pipe(vx::Stage<1>(), vx::Stage<2>()));
    KEEPS(df::make_pipe(vx::Stage<1>(), vx::Stage<2>())(s));
    KEEPS(utils::compose(vx::Stage<1>(), vx::Stage<2>())(s));
}

// stages that want one of their own get a copy
struct Own { Serie operator()(Serie s) const {
    s.reCount(0);
    return s;
} };

void piped_by_value() {
    TWO
    KEEPS(df::pipe(s, Own()));
    KEEPS(df::pipe(s, Own(), Own()));
    KEEPS(s.pipe(Own()));
    KEEPS(df::make_pipe(Own(), Own())(s));
    KEEPS(utils::compose(Own(), Own())(s));
}

void remembered() {
    TWO
    auto f = utils::memoize(vx::Stage<1>());
    KEEPS(f(s));
    KEEPS(f(s));
}

void in_parallel() {
    unsigned k = vx::pos(), n = 3, dim = vx::u32(), l = k, m = n, dim2 = dim;
    Array a = vx::array(n * k), b = vx::array(m * l);
    Serie s(k, a, dim), t(l, b, dim2);
    KEEPS(utils::parallel_execute(vx::Stage<1>(), s, 2));
}

void made() {
    ALIKE
    KEEPS(math::make_add(t)(s));
    KEEPS(math::make_sub(t)(s));
    KEEPS(math::make_scale(2.0)(s));
    KEEPS(math::make_negate()(s));
    KEEPS(df::make_map(vx::VecNum())(s));
    KEEPS(df::make_filter(vx::VecBool())(s));
}

// copies and conversions
void copied() {
    TWO
    KEEPS(Serie(s));
    KEEPS(s.clone());
    
    Serie u;
    KEEPS(u = s);
    u = s;
    u.reCount(0);
    KEEPS(0);
    Serie v(s);
    v.reCount(m);
    KEEPS(0);
    Serie w = s.clone();
    w.reCount(m);
    KEEPS(0);
    Series all{s, t};
    all[0].reCount(m);
    KEEPS(0);
    KEEPS(s.value(m));
    KEEPS(s.scalar(m));
    KEEPS(s.get<Array>(m));
    KEEPS(s.get<double>(m));
}

// a write that is refused changes nothing
void refused() {
    TWO
    unsigned i = vx::u32(), j = vx::u32();
    Array w = vx::array(j);
    vx::assume(i >= n || j != k);
    vx::assume(k > 1);
    KEEPS(VX_VOID(s.setValue(i, w)));
    KEEPS(VX_VOID(s.set(i, w)));
}

void refused_number() {
    NUMBERS
    unsigned i = vx::u32();
    vx::assume(i >= n);
    KEEPS(VX_VOID(s.setScalar(i, vx::real())));
    KEEPS(VX_VOID(s.set(i, vx::real())));
}

} // namespace F10
