#include "vx.h"
#include "ops.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>

using namespace df;

namespace F12 {

// Returns or throws; the analyser looks at every access and division on the
// way, and no callback is called.
#define FINE(...)                                                                                  \
    do {                                                                                           \
        vx::take();                                                                                \
        vx::Trace none = vx::take();                                                               \
        try {                                                                                      \
            (void)(__VA_ARGS__);                                                                   \
        } catch (const std::exception &) {                                                         \
        }                                                                                          \
        vx::same("calls of " #__VA_ARGS__, vx::take(), none);                                      \
    } while (0)

#define FINE_VOID(...) FINE((__VA_ARGS__, 0))

// without items, of any shape
#define NONE                                                                                       \
    unsigned k = vx::pos(), dim = vx::u32();                                                       \
    Serie s(k, Array(), dim);

// one without, one with items or not
#define ANY                                                                                        \
    NONE unsigned l = vx::pos(), m = vx::u32();                                                    \
    Array b = vx::array(l *m);                                                                     \
    Serie t(l, b, vx::u32());

static void none(const Serie &r, unsigned k, unsigned dim) {
    vx::same("count", r.count(), 0u);
    vx::same("values", r.asArray().size(), std::size_t(0));
    vx::same("itemSize", r.itemSize(), k);
    vx::same("dimension", r.dimension(), dim);
}

void looks_empty() {
    NONE
    none(s, k, dim);
    none(Serie(k, 0, dim), k, dim);
    none(Serie(k, {}, dim), k, dim);
    none(Serie(s), k, dim);
    none(s.clone(), k, dim);
    Serie u = vx::serie(vx::pos(), vx::u32());
    u = s;
    none(u, k, dim);
    Serie v(k, vx::u32(), dim);
    v.reCount(0);
    none(v, k, dim);
}

void accessors() {
    NONE
    unsigned i = vx::u32();
    FINE(s.get<double>(i));
    FINE(s.get<Array>(i));
    FINE(s.value(i));
    FINE(s.scalar(i));
    FINE_VOID(s.set(i, vx::array(k)));
    FINE_VOID(s.set(i, vx::real()));
    FINE_VOID(s.setValue(i, vx::array(k)));
    FINE_VOID(s.setScalar(i, vx::real()));
    none(s, k, dim);
}

void selection() {
    NONE
    none(df::filter(vx::VecBool(), s), k, dim);
    none(utils::reject(vx::VecBool(), s), k, dim);
    none(df::findAll(vx::VecBool(), s), k, dim);
    none(s.filter(vx::VecBool()), k, dim);
    FINE(df::filter(vx::VecBool(), s));
    FINE(utils::reject(vx::VecBool(), s));
    FINE(df::findAll(vx::VecBool(), s));
    FINE(utils::cut(vx::VecBool(), s));
}

void selection_of_numbers() {
    unsigned dim = vx::u32();
    Serie s(1, Array(), dim);
    none(df::filter(vx::NumBool(), s), 1, dim);
    none(utils::reject(vx::NumBool(), s), 1, dim);
    none(df::findAll(vx::NumBool(), s), 1, dim);
    none(s.filter(vx::NumBool()), 1, dim);
    FINE(df::filter(vx::NumBool(), s));
    FINE(utils::reject(vx::NumBool(), s));
    FINE(df::findAll(vx::NumBool(), s));
    FINE(df::find(vx::NumBool(), s));
    FINE(utils::cut(vx::NumBool(), s));
    vx::holds("found", !static_cast<bool>(df::find(vx::NumBool(), s)));
}

void search() {
    NONE
    vx::assume(k > 1);
    FINE(df::find(vx::VecBool(), s));
    vx::holds("found", !static_cast<bool>(df::find(vx::VecBool(), s)));
}

void selection_together() {
    NONE
    unsigned l = vx::pos(), dim2 = vx::u32();
    Serie t(l, Array(), dim2);
    auto [x, y] = df::filter(vx::Vec2Bool(), s, t);
    none(x, k, dim);
    none(y, l, dim2);
    auto [v, w] = utils::reject(vx::Vec2Bool(), s, t);
    none(v, k, dim);
    none(w, l, dim2);
    FINE(df::filter(vx::Vec2Bool(), s, t));
    FINE(utils::reject(vx::Vec2Bool(), s, t));
}

struct Both {
    bool operator()(const Array &x, const Array &y) const {
        vx::never("called without items");
        return x[0] > y[0];
    }
};

void selection_all() {
    NONE
    unsigned l = vx::pos(), dim2 = vx::u32();
    Serie t(l, Array(), dim2);
    Series p = df::filterAll(Both(), s, t), q = utils::rejectAll(Both(), s, t);
    none(p[0], k, dim);
    none(p[1], l, dim2);
    none(q[0], k, dim);
    none(q[1], l, dim2);
}

void pieces() {
    NONE
    auto [yes, no] = utils::partition(vx::VecBool(), s);
    none(yes, k, dim);
    none(no, k, dim);
    FINE(utils::partition(vx::VecBool(), s));
    FINE(utils::partition(vx::NumBool(), s));
    for (unsigned p : {0u, 1u, 2u, 5u}) {
        FINE(utils::partition_n(p, s));
        FINE(utils::partition_n(p, s, s));
    }
    for (const Serie &x : utils::partition_n(3, s)) {
        none(x, k, dim);
    }
}

void sorting() {
    NONE
    none(utils::sort(s), k, dim);
    none(utils::sort(s, [](const Array &x, const Array &y) { return x[0] < y[0]; }), k, dim);
}

void sorting_numbers() {
    unsigned dim = vx::u32();
    Serie s(1, Array(), dim);
    none(utils::sort(s), 1, dim);
    none(utils::sort(s, [](double x, double y) { return x > y; }), 1, dim);
}

void joining() {
    NONE
    unsigned m = vx::u32();
    Array b = vx::array(m * k);
    Serie t(k, b, dim);
    none(utils::concat(s, s), k, dim);
    none(utils::concat(s), k, dim);
    none(utils::concat(std::vector<Serie>{s, s}), k, dim);
    none(df::merge(s, s), k, dim);
    none(df::merge(s, s, false), k, dim);
    none(df::merge(true, s, s, s), k, dim);
    none(df::merge(false, s, s, s), k, dim);
    // nothing is added to the other one
    vx::serie_is(utils::concat(s, t), k, dim, b);
    vx::serie_is(utils::concat(t, s), k, dim, b);
    vx::serie_is(utils::concat(s, t, s), k, dim, b);
    vx::serie_is(df::merge(s, t), k, dim, b);
    vx::serie_is(df::merge(t, s), k, dim, b);
}

void joining_others() {
    ANY
    FINE(utils::concat(s, t));
    FINE(utils::concat(t, s));
    FINE(df::merge(s, t));
    FINE(df::merge(t, s));
    FINE(df::merge(s, t, false));
    FINE(df::merge(t, s, false));
    FINE(df::merge(true, s, t));
    FINE(df::merge(true, t, s));
}

void joining_others_by_turns() {
    ANY
    FINE(df::merge(false, s, t));
    FINE(df::merge(false, t, s));
}

void packing() {
    ANY
    FINE(utils::zip(s, t));
    FINE(utils::zip(s, s));
    FINE(utils::zip(t, s));
    FINE(utils::zipVector(Series{s, t}));
    FINE(utils::zipVector(Series{s}));
    FINE(utils::zipVector(Series()));
    vx::same("zipped", utils::zip(s, s).count(), 0u);
}

void unpacking() {
    unsigned k = vx::pos(), l = vx::pos();
    Serie s(k + l, Array());
    FINE(utils::unzip(s, std::vector<uint32_t>{k, l}));
    FINE(utils::unzip(s, std::vector<uint32_t>{}));
    FINE(utils::unzip(s, std::vector<uint32_t>{k}));
    Series r = utils::unzip(s, std::vector<uint32_t>{k, l});
    vx::same("count", r[0].count(), 0u);
    vx::same("count", r[1].count(), 0u);
}

void arithmetic() {
    NONE
    double x = vx::real();
    none(math::add(s, s), k, dim);
    none(math::add({s, s}), k, dim);
    none(math::add(s, s, s), k, dim);
    none(math::sub(s, s), k, dim);
    none(math::sub({s, s}), k, dim);
    none(math::sub(s, s, s), k, dim);
    none(math::mult(s, x), k, dim);
    none(math::mult(s, s), k, dim);
    none(math::div(x, s), k, dim);
    none(math::negate(s), k, dim);
    none(math::scale(s, x), k, dim);
    none(math::scale(s, vx::array(k)), k, dim);
    none(math::div(Serie(1, Array()), s), k, dim);
    none(math::mult(s, Serie(1, Array())), k, dim);
    none(math::weigthedSum({s, s}, {x, x}), k, dim);
}

void arithmetic_with_a_number() {
    unsigned dim = vx::u32();
    Serie s(1, Array(), dim);
    none(math::add(s, vx::real()), 1, dim);
    none(math::sub(s, vx::real()), 1, dim);
}

void arithmetic_of_any() {
    ANY
    FINE(math::add(s, vx::real()));
    FINE(math::add(s, t));
    FINE(math::add(t, s));
    FINE(math::add({s, t}));
    FINE(math::sub(s, vx::real()));
    FINE(math::sub(s, t));
    FINE(math::sub(t, s));
    FINE(math::mult(s, t));
    FINE(math::mult(t, s));
    FINE(math::div(s, t));
    FINE(math::div(t, s));
    FINE(math::scale(s, b));
    FINE(math::weigthedSum({s, t}, b));
}

void comparisons() {
    ANY
    FINE(math::equals(s, s));
    FINE(math::equals(s, t));
    FINE(math::equals(t, s));
    FINE(math::approximatelyEquals(s, s));
    FINE(math::approximatelyEquals(s, t));
    FINE(math::approximatelyEquals(t, s));
    FINE(math::equalsAll(s, s));
    FINE(math::equalsAll(s, t));
    FINE(math::equalsAll(t, s));
    FINE(math::approximatelyEqualsAll(s, t));
}

void ranges() {
    ANY
    FINE(math::minMax(s));
    FINE(math::normalize(s));
    FINE(stats::mean(s));
    FINE(stats::covariance(s, s));
    FINE(stats::covariance(s, t));
    FINE(stats::covariance(t, s));
}

static void quantiles_of(const Serie &s) {
    double q = vx::real(), w = vx::real();
    FINE(stats::quantile(s, q));
    FINE(stats::q25(s));
    FINE(stats::q50(s));
    FINE(stats::q75(s));
    FINE(stats::IQR(s));
    FINE(stats::outliers(s, w));
    FINE(stats::isOutliers(s, w));
    FINE(stats::notOutliers(s, w));
}

void quantiles() {
    NONE
    quantiles_of(s);
}

void quantiles_of_numbers() { quantiles_of(Serie(1, Array())); }

void histogram() {
    NONE
    unsigned nb = vx::u32();
    double x = vx::real(), y = vx::real();
    FINE(stats::bins(s, nb, x, y));
    FINE(stats::bins(s, nb));
}

void histogram_of_numbers() {
    Serie s(1, Array());
    unsigned nb = vx::u32();
    double x = vx::real(), y = vx::real();
    FINE(stats::bins(s, nb, x, y));
    FINE(stats::bins(s, nb));
}

void products() {
    ANY
    FINE(algebra::dot(s, s));
    FINE(algebra::dot(s, t));
    FINE(algebra::dot(t, s));
    FINE(algebra::dot(s, b));
    FINE(algebra::dot(s, Array()));
    FINE(algebra::cross(s, s));
    FINE(algebra::cross(s, t));
    FINE(algebra::cross(t, s));
    FINE(algebra::norm(s));
    FINE(algebra::norm2(s));
}

static void matrices_of(const Serie &s) {
    FINE(algebra::det(s));
    FINE(algebra::inv(s));
    FINE(algebra::transpose(s));
    FINE(algebra::eigenValues(s));
    FINE(algebra::eigenVectors(s));
    FINE(algebra::eigenSystem(s));
}

void matrices() {
    NONE
    matrices_of(s);
}
void matrices_3_2d() { matrices_of(Serie(3, Array(), 2)); }
void matrices_4_2d() { matrices_of(Serie(4, Array(), 2)); }
void matrices_6_3d() { matrices_of(Serie(6, Array(), 3)); }
void matrices_9_3d() { matrices_of(Serie(9, Array(), 3)); }

void surfaces() {
    unsigned m = vx::u32();
    Array b = vx::array(3 * m);
    Serie s(3, Array()), t(3, b, vx::u32());
    FINE(geo::normals(s, s));
    FINE(geo::normals(s, t));
    FINE(geo::normals(t, s));
    FINE(geo::areas(s, s));
    FINE(geo::areas(s, t));
    FINE(geo::areas(t, s));
}

void surfaces_of_any() {
    ANY
    FINE(geo::normals(s, t));
    FINE(geo::normals(t, s));
    FINE(geo::areas(s, t));
    FINE(geo::areas(t, s));
}

void radar() {
    ANY
    FINE(geo::insar(s, b));
    FINE(geo::insar(s, Array()));
    FINE(geo::fringes(s, vx::real()));
}

void mapped() {
    NONE
    FINE(df::map(vx::VecNum(), s));
    FINE(df::map(vx::VecVec(), s));
    FINE(df::map(vx::NumNum(), s));
    FINE(df::map(vx::NumVec(), s));
    FINE(s.map(vx::VecNum()));
    FINE(s.map(vx::VecVec()));
    FINE(utils::apply(vx::NumNum(), s));
    FINE(utils::apply(vx::VecNum(), s));
    vx::same("mapped", df::map(vx::VecVec(), s).count(), 0u);
    vx::same("mapped", df::map(vx::VecNum(), s).count(), 0u);
    vx::same("mapped", df::map(vx::VecVec(), s).asArray().size(), std::size_t(0));
    vx::same("dimension", df::map(vx::VecVec(), s).dimension(), dim);
    vx::same("dimension", df::map(vx::VecNum(), s).dimension(), dim);
}

void mapped_together() {
    ANY
    FINE(df::map(vx::Vec2Num(), s, s));
    FINE(df::map(vx::Vec2Vec(), s, s));
    FINE(utils::apply(vx::Vec2Num(), s, s));
    vx::same("mapped", df::map(vx::Vec2Vec(), s, s).count(), 0u);
    vx::same("mapped", df::map(vx::Vec2Num(), s, s).count(), 0u);
}

void visited() {
    NONE
    FINE_VOID(df::forEach(vx::VecVoid(), s));
    FINE_VOID(df::forEach(vx::NumVoid(), s));
    FINE_VOID(df::forEach(vx::Vec2Void(), s, s));
    FINE_VOID(df::forEach(vx::Vec3Void(), s, s, s));
    FINE_VOID(s.forEach(vx::VecVoid()));
}

void reduced() {
    NONE
    Array z = vx::array(k);
    double x = vx::real();
    FINE(df::reduce(vx::Fold1(), s, x));
    FINE(df::reduce(vx::FoldA(), s, z));
    FINE(s.reduce(vx::FoldA(), z));
    FINE(df::reduce(vx::FoldA(), s, Array()));
}

void checked() {
    NONE
    FINE(df::cond::check(s, vx::VecBool()));
    FINE(df::cond::check(s, vx::NumBool()));
    FINE(df::cond::if_then_else(
        s,
        [](const Array &x) {
            vx::never("called without items");
            return x[0] > 0;
        },
        [](const Array &x, uint32_t, const Serie &) {
            vx::never("called without items");
            return x[0];
        },
        [](const Array &, uint32_t i, const Serie &) {
            vx::never("called without items");
            return double(i);
        }));
}

void in_parallel() {
    NONE
    for (unsigned c : {0u, 1u, 2u, 4u}) {
        try {
            utils::parallel_execute(vx::Stage<1>(), s, c);
        } catch (const std::exception &) {
        }
    }
}


// decomposers and the container
static void decomposed(const Serie &s, const std::string &x) {
    Dataframe f;
    f.add(x, s);
    const Dataframe &r = f;
    Components c;
    Coordinates xyz;
    EigenValues ev;
    EigenVectors evec;
    FINE(c.names(r, 1, r[x], x));
    FINE(xyz.names(r, 1, r[x], x));
    FINE(ev.names(r, 1, r[x], x));
    FINE(evec.names(r, 1, r[x], x));
    FINE(c.serie(r, 1, x + "x"));
    FINE(c.serie(r, 1, x + "xx"));
    FINE(xyz.serie(r, 1, "x"));
    FINE(ev.serie(r, 1, x + "1"));
    FINE(evec.serie(r, 3, x + "1"));
}

void decomposed_numbers() { decomposed(Serie(1, Array(), 3), "a"); }
void decomposed_vectors() { decomposed(Serie(3, Array(), 3), "a"); }
void decomposed_positions() { decomposed(Serie(3, Array(), 3), "positions"); }
void decomposed_stresses() { decomposed(Serie(6, Array(), 3), "a"); }
void decomposed_stresses_2d() { decomposed(Serie(3, Array(), 2), "a"); }

static void mesh(const Serie &p, const Serie &t) {
    Dataframe f;
    f.add("positions", p);
    f.add("indices", t);
    const Dataframe &r = f;
    Normals n;
    Area a;
    Valence v;
    Coordinates c;
    FINE(n.names(r, 3, p, "positions"));
    FINE(a.names(r, 1, p, "positions"));
    FINE(v.names(r, 1, p, "positions"));
    FINE(n.serie(r, 3, "n"));
    FINE(n.serie(r, 3, "normals"));
    FINE(a.serie(r, 1, "area"));
    FINE(v.serie(r, 1, "valence"));
    FINE(c.serie(r, 1, "x"));
}

void mesh_without_points() { mesh(Serie(3, Array()), vx::serie(3, 1)); }
void mesh_without_triangles() { mesh(vx::serie(3, 2), Serie(3, Array())); }
void mesh_without_both() { mesh(Serie(3, Array()), Serie(3, Array())); }
void mesh_of_default_series() { mesh(Serie(), Serie()); }

} // namespace F12
