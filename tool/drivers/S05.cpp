#include "vx.h"
#include "ops.h"
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>

using namespace df;

namespace S05 {

// Returns or throws; the analyser looks at every access and division.
#define FINE(...)                                                                                  \
    do {                                                                                           \
        try {                                                                                      \
            (void)(__VA_ARGS__);                                                                   \
        } catch (const std::exception &) {                                                         \
        }                                                                                          \
        vx::holds("after " #__VA_ARGS__, true);                                                    \
    } while (0)
#define FINE_VOID(...) FINE((__VA_ARGS__, 0))

#define ONE                                                                                        \
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();                                        \
    Array a = vx::array(n *k);                                                                     \
    Serie s(k, a, dim);

#define TWO                                                                                        \
    ONE unsigned l = vx::pos(), m = vx::u32(), dim2 = vx::u32();                                   \
    Array b = vx::array(m *l);                                                                     \
    Serie t(l, b, dim2);

#define EACH(name, args, ...)                                                                      \
    void name() {                                                                                  \
        args FINE(__VA_ARGS__);                                                                    \
    }

void no_pieces() {
    ONE
    VX_REJECTS(utils::partition_n(0, s));
    VX_REJECTS(utils::partition_n(0, s, s));
}

void more_pieces_than_items() {
    unsigned k = vx::pos();
    Serie s(k, vx::array(2 * k));
    FINE(utils::partition_n(3, s));
    FINE(utils::partition_n(9, s));
    FINE(utils::partition_n(3, s, s));
    Serie one(k, vx::array(k));
    FINE(utils::partition_n(2, one));
    FINE(utils::partition_n(2, one, one));
}

void any_number_of_pieces() {
    ONE
    FINE(utils::partition_n(vx::u32(), s));
}

void no_cores() {
    ONE
    VX_REJECTS(utils::parallel_execute(vx::Stage<1>(), s, 0));
}

void more_cores_than_items() {
    unsigned k = vx::pos();
    Serie s(k, vx::array(2 * k));
    FINE(utils::parallel_execute(vx::Stage<1>(), s, 3));
    FINE(utils::parallel_execute(vx::Stage<1>(), s, 5));
    FINE(utils::parallel_execute(vx::Stage<1>(), Serie(k, 0), 2));
}

void empty_lists() {
    VX_REJECTS(utils::concat(std::vector<Serie>()));
    VX_REJECTS(utils::zipVector(std::vector<Serie>()));
    VX_REJECTS(math::add(std::initializer_list<Serie>{}));
    VX_REJECTS(math::sub(std::initializer_list<Serie>{}));
    VX_REJECTS(math::weigthedSum({}, {}));
    VX_REJECTS(math::weigthedSum({}, vx::array(vx::u32())));
    ONE
    VX_REJECTS(utils::unzip(s, std::vector<uint32_t>()));
}

void lists_of_one() {
    ONE
    vx::same("concat", utils::concat(std::vector<Serie>{s}).asArray(), a);
    vx::same("zip", utils::zipVector(std::vector<Serie>{s}).asArray(), a);
    vx::same("add", math::add({s}).asArray(), a);
    vx::same("sub", math::sub({s}).asArray(), a);
}

void numbers_of_weights() {
    unsigned k = vx::pos(), n = vx::u32(), w = vx::u32();
    vx::assume(w != 2);
    Serie s(k, vx::array(n * k)), t(k, vx::array(n * k));
    VX_REJECTS(math::weigthedSum({s, t}, vx::array(w)));
    VX_REJECTS(math::weigthedSum({s, t}, {}));
}

void numbers_of_factors() {
    ONE
    unsigned w = vx::u32();
    vx::assume(w != k);
    VX_REJECTS(math::scale(s, vx::array(w)));
    VX_REJECTS(math::scale(s, Array()));
}

void numbers_of_coordinates() {
    ONE
    unsigned w = vx::u32();
    FINE(algebra::dot(s, vx::array(w)));
    FINE(algebra::dot(s, Array()));
    FINE(geo::insar(s, vx::array(w)));
    FINE(geo::insar(s, Array()));
    FINE(geo::fringes(s, 0));
    FINE(geo::fringes(s, vx::real()));
}

void not_of_three_coordinates() {
    ONE
    unsigned w = vx::u32();
    vx::assume(w != 3);
    vx::same("nothing", geo::insar(s, vx::array(w)).asArray().size(), std::size_t(0));
}

void other_item_sizes() {
    TWO
    FINE(math::add(s, t));
    FINE(math::add({s, t}));
    FINE(math::add(s, vx::real()));
}

void other_item_sizes_of_differences() {
    TWO
    FINE(math::sub(s, t));
    FINE(math::sub({s, t}));
    FINE(math::sub(s, vx::real()));
}

void other_item_sizes_of_factors() {
    TWO
    FINE(math::mult(s, t));
    FINE(math::div(s, t));
}

void other_item_sizes_of_masks() {
    TWO
    FINE(math::equals(s, t));
    FINE(math::equalsAll(s, t));
    FINE(math::approximatelyEquals(s, t));
    FINE(math::approximatelyEqualsAll(s, t));
}

EACH(other_item_sizes_of_weights, TWO, math::weigthedSum({s, t}, vx::array(2)))
EACH(other_item_sizes_of_ranges, ONE, math::minMax(s))
EACH(other_item_sizes_of_unit_ranges, ONE, math::normalize(s))

void other_item_sizes_of_products() {
    TWO
    FINE(algebra::dot(s, t));
    FINE(algebra::norm(s));
    FINE(algebra::norm2(s));
    FINE(stats::covariance(s, t));
    FINE(stats::mean(s));
}

void other_item_sizes_of_cross() {
    TWO
    FINE(algebra::cross(s, t));
}

void other_item_sizes_of_matrices() {
    ONE
    vx::assume(!(k == 3 && dim == 2) && !(k == 6 && dim == 3));
    FINE(algebra::det(s));
    FINE(algebra::transpose(s));
    FINE(algebra::eigenValues(s));
    FINE(algebra::eigenVectors(s));
    FINE(algebra::eigenSystem(s));
}

void other_item_sizes_of_inverses() {
    ONE
    FINE(algebra::inv(s));
}

void other_item_sizes_of_meshes() {
    TWO
    vx::assume(l != 3);
    FINE(geo::normals(s, t));
    FINE(geo::areas(s, t));
    FINE(geo::normals(t, s));
    FINE(geo::areas(t, s));
}

EACH(concatenated, TWO, utils::concat(s, t))
EACH(concatenated_in_a_list, TWO, utils::concat(std::vector<Serie>{s, t}))
EACH(merged, TWO, df::merge(s, t))
EACH(deep_interleaved, TWO, df::merge(s, t, false))
EACH(merged_many, TWO, df::merge(true, s, t, s))
EACH(deep_interleaved_two, TWO, df::merge(false, s, t))
EACH(deep_interleaved_many, TWO, df::merge(false, s, t, s))

#define ALIKE                                                                                      \
    ONE Serie t(k, vx::array(n *k), vx::u32());

EACH(interleaved, ALIKE, df::merge(s, t, false))
EACH(interleaved_two, ALIKE, df::merge(false, s, t))
EACH(interleaved_many, ALIKE, df::merge(false, s, t, s))

void packed() {
    TWO
    FINE(utils::zip(s, t));
    FINE(utils::zipVector(std::vector<Serie>{s, t}));
}

void unpacked() {
    ONE
    unsigned x = vx::u32(), y = vx::u32();
    vx::assume(x <= k);
    vx::assume(y <= k);
    FINE(utils::unzip(s, std::vector<uint32_t>{x}));
    FINE(utils::unzip(s, std::vector<uint32_t>{x, y}));
    FINE(utils::unzip(s, std::vector<uint32_t>{0, k}));
    FINE(utils::unzip(s, std::vector<uint32_t>{0}));
}

void not_the_item_size() {
    ONE
    unsigned x = vx::u32(), y = vx::u32();
    vx::assume(x + y != k);
    VX_REJECTS(utils::unzip(s, std::vector<uint32_t>{x, y}));
}

EACH(mapped_together, TWO, df::map(vx::Vec2Num(), s, t))
EACH(mapped_together_to_vectors, TWO, df::map(vx::Vec2Vec(), s, t))
EACH(visited_together, TWO, (df::forEach(vx::Vec2Void(), s, t), 0))
EACH(filtered_together, TWO, df::filter(vx::Vec2Bool(), s, t))
EACH(rejected_together, TWO, utils::reject(vx::Vec2Bool(), s, t))
EACH(applied_together, TWO, utils::apply(vx::Vec2Num(), s, t))

// callbacks whose results are no items
struct Nothing {
    Array operator()(const Array &, uint32_t) const { return {}; }
    Array operator()(const Array &, const Array &, uint32_t) const { return {}; }
};
struct NothingOfNumber {
    Array operator()(double, uint32_t) const { return {}; }
};
struct Growing {
    Array operator()(const Array &, uint32_t i) const { return Array(i + 1); }
    Array operator()(const Array &, const Array &, uint32_t i) const { return Array(i + 1); }
};

void mapped_to_nothing() {
    ONE
    FINE(df::map(Nothing(), s));
    FINE(df::map(Nothing(), s, s));
    FINE(df::map(NothingOfNumber(), s));
}

void mapped_to_various() {
    unsigned k = vx::pos(), n = vx::u32();
    vx::assume(n > 1);
    Serie s(k, vx::array(n * k));
    VX_REJECTS(df::map(Growing(), s));
    VX_REJECTS(df::map(Growing(), s, s));
    VX_REJECTS(s.map(Growing()));
}

void reduced() {
    ONE
    FINE(df::reduce(vx::FoldA(), s, Array()));
    FINE(s.reduce(vx::FoldA(), Array()));
    FINE(df::reduce(vx::Fold1(), s, 0));
    FINE(df::reduce([](const Array &, const Array &, uint32_t) { return Array(); }, s, Array()));
}

EACH(numbers_mapped, ONE, df::map(vx::NumNum(), s))
EACH(numbers_mapped_to_vectors, ONE, df::map(vx::NumVec(), s))
EACH(numbers_visited, ONE, (df::forEach(vx::NumVoid(), s), 0))
EACH(numbers_filtered, ONE, df::filter(vx::NumBool(), s))
EACH(numbers_found, ONE, df::find(vx::NumBool(), s))
EACH(numbers_all_found, ONE, df::findAll(vx::NumBool(), s))
EACH(numbers_rejected, ONE, utils::reject(vx::NumBool(), s))
EACH(numbers_cut, ONE, utils::cut(vx::NumBool(), s))
EACH(numbers_parted, ONE, utils::partition(vx::NumBool(), s))
EACH(numbers_checked, ONE, df::cond::check(s, vx::NumBool()))
EACH(sorted, ONE, utils::sort(s))

void shapes() {
    unsigned n = vx::u32();
    int k = vx::integer();
    Array a = vx::array(n);
    FINE(Serie(k, a));
    FINE(Serie(k, Array()));
    FINE(Serie(0, a));
    FINE(Serie(-1, a));
    FINE(Serie());
    FINE(Serie(0, 5u));
    Serie none;
    FINE(none.get<double>(0));
    FINE(none.get<Array>(0));
    FINE(none.value(vx::u32()));
    FINE(none.scalar(vx::u32()));
    FINE_VOID(none.set(0, 1.0));
    FINE_VOID(none.set(0, Array{1.0}));
    FINE_VOID(none.set(vx::u32(), Array()));
    FINE_VOID(none.setValue(0, Array()));
    FINE_VOID(none.setScalar(0, 1.0));
    FINE(toSerie(k, a));
}

// a Serie that has no shape yet
void without_shape() {
    Serie s;
    Serie t = vx::serie(vx::pos(), vx::u32());
    FINE(df::filter(vx::VecBool(), s));
    FINE(utils::reject(vx::VecBool(), s));
    FINE(df::find(vx::VecBool(), s));
    FINE(df::findAll(vx::VecBool(), s));
    FINE(utils::cut(vx::VecBool(), s));
    FINE(utils::partition(vx::VecBool(), s));
    FINE(utils::partition_n(2, s));
    FINE(utils::sort(s));
    FINE(utils::concat(s, t));
    FINE(utils::concat(t, s));
    FINE(df::merge(s, t));
    FINE(df::merge(t, s));
    FINE(df::merge(s, s, false));
    FINE(df::merge(s, t, false));
    FINE(utils::zip(s, t));
    FINE(utils::zip(s, s));
    FINE(math::add(s, t));
    FINE(math::add(s, s));
    FINE(math::add(s, 1));
    FINE(math::sub(s, t));
    FINE(math::mult(s, t));
    FINE(math::mult(t, s));
    FINE(math::mult(s, s));
    FINE(math::div(s, t));
    FINE(math::negate(s));
    FINE(math::scale(s, 2));
    FINE(math::scale(s, Array()));
    FINE(math::minMax(s));
    FINE(math::normalize(s));
    FINE(math::equals(s, s));
    FINE(math::equals(s, t));
}

void without_shape_further() {
    Serie s, t = vx::serie(vx::pos(), vx::u32());
    FINE(stats::mean(s));
    FINE(stats::covariance(s, s));
    FINE(stats::covariance(s, t));
    FINE(stats::quantile(s, 0.5));
    FINE(stats::outliers(s, 1.5));
    FINE(stats::bins(s, 3u));
    FINE(algebra::dot(s, s));
    FINE(algebra::dot(s, Array()));
    FINE(algebra::cross(s, s));
    FINE(algebra::norm(s));
    FINE(algebra::norm2(s));
    FINE(algebra::det(s));
    FINE(algebra::inv(s));
    FINE(algebra::transpose(s));
    FINE(algebra::eigenValues(s));
    FINE(algebra::eigenVectors(s));
    FINE(algebra::eigenSystem(s));
    FINE(geo::normals(s, t));
    FINE(geo::normals(t, s));
    FINE(geo::areas(s, t));
    FINE(geo::areas(t, s));
    FINE(geo::insar(s, vx::array(3)));
    FINE(geo::fringes(s, 1));
    FINE(df::map(vx::VecNum(), s));
    FINE(df::map(vx::VecVec(), s));
    FINE(df::map(vx::NumNum(), s));
    FINE(df::reduce(vx::FoldA(), s, Array()));
}

void quantiles() {
    unsigned n = vx::u32();
    Serie s(1, vx::array(n));
    double q = vx::real();
    FINE(stats::quantile(s, q));
    FINE(stats::outliers(s, q));
}

void bad_quantiles() {
    unsigned n = vx::u32();
    Serie s(1, vx::array(n));
    double q = vx::real();
    vx::assume(q < 0 || q > 1);
    VX_REJECTS(stats::quantile(s, q));
    VX_REJECTS(stats::quantile(s, vx::nan()));
}

void histogram() {
    unsigned n = vx::u32();
    Serie s(1, vx::array(n));
    FINE(stats::bins(s, 0u));
    FINE(stats::bins(s, 0u, vx::real(), vx::real()));
}

void grids() {
    Array c = vx::array(3), d = vx::array(3), w = vx::array(vx::u32());
    VX_REJECTS(grid::cartesian::from_dims({}));
    VX_REJECTS(grid::cartesian::from_dims({}, c, d));
    VX_REJECTS(grid::cartesian::from_dims({1, 1, 1, 1}));
    VX_REJECTS(grid::cartesian::from_points({}, c, d));
    VX_REJECTS(grid::cartesian::from_points({1, 1, 1, 1}, c, d));
    FINE(grid::cartesian::from_dims({0}, c, d));
    FINE(grid::cartesian::from_dims({1, 0}, c, d));
    FINE(grid::cartesian::from_dims({0, 1, 1}, c, d));
    FINE(grid::cartesian::from_dims({1}, c, d));
    FINE(grid::cartesian::from_points({0}, c, d));
    FINE(grid::cartesian::from_points({1, 1, 0}, c, d));
    FINE(grid::cartesian::from_points({1}, c, d));
    FINE(grid::cartesian::from_dims({2, 2}, w, d));
    FINE(grid::cartesian::from_dims({2, 2}, c, w));
    FINE(grid::cartesian::from_points({2, 2}, w, d));
    FINE(grid::cartesian::from_points({2, 2}, c, w));
}

void numbers_of_grid_coordinates() {
    unsigned n = vx::u32();
    vx::assume(n != 3);
    Array c = vx::array(3), w = vx::array(n);
    VX_REJECTS(grid::cartesian::from_dims({2}, w, c));
    VX_REJECTS(grid::cartesian::from_dims({2}, c, w));
    VX_REJECTS(grid::cartesian::from_points({2}, w, c));
    VX_REJECTS(grid::cartesian::from_points({2}, c, w));
}

void random_series() {
    FINE(math::random(0, vx::pos(), 0, 1, vx::u32()));
    FINE(math::random(0, 0, 0, 1, vx::u32()));
}

void names() {
    Dataframe f;
    std::string x = vx::name();
    const Dataframe &r = f;
    FINE(r[x]);
    FINE(f[""]);
    ONE
    FINE_VOID(f.add("", s));
    FINE_VOID(f.del(x));
    FINE_VOID(f.clear());
    FINE_VOID(f.clear());
}

void vectors() {
    Array a = vx::array(vx::u32()), b = vx::array(vx::u32());
    Vector none;
    FINE(none.norm());
    FINE(none.normalize());
    FINE(none.dot(none));
    FINE(none.mult(2.0));
    FINE(none.add(none));
    Vector v(a), w(b);
    FINE(v.dot(w));
    FINE(v.add(w));
    FINE(v.sub(w));
    FINE(v.mult(w));
}

void vectors_of_other_lengths() {
    unsigned n = vx::u32(), m = vx::u32();
    vx::assume(n != m);
    Vector v(vx::array(n)), w(vx::array(m));
    VX_REJECTS(v.dot(w));
    VX_REJECTS(v.add(w));
    VX_REJECTS(v.sub(w));
    VX_REJECTS(v.mult(w));
}

void matrices() {
    unsigned n = vx::u32(), m = vx::u32();
    Array a = vx::array(n);
    FINE(Matrix(a, m));
    FINE(squaredMatrix(a));
    for (unsigned i = 0; i < 12; ++i) {
        FINE(symSquaredMatrix(vx::array(i)));
    }
}

void entries() {
    unsigned m = vx::u32();
    Matrix x(vx::array(m * m), m);
    FINE(x.multVec(Vector(vx::array(vx::u32()))));
    FINE(x.multMat(Matrix(vx::array(4), 2)));
    Matrix none(Array(), 0);
    FINE(none.trace());
    FINE(none.transpose());
    FINE(none.isSymmetric());
}

void printed() {
    unsigned k = vx::u32(), n = vx::u32(), m = vx::u32();
    Serie s(k, n, 3);
    FINE_VOID(std::cerr << s);
    FINE_VOID(std::cerr << vx::array(m));
    FINE_VOID(std::cerr << Series{s, Serie()});
    FINE_VOID(utils::print(s));
    FINE_VOID(utils::print(s, s));
    FINE_VOID(s.dump());
}

} // namespace S05
