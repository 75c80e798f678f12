#include "vx.h"
#include "ops.h"

using namespace df;

namespace F11 {

// any Serie of any dimension
#define ONE                                                                                        \
    unsigned k = vx::pos(), n = vx::u32(), dim = vx::u32();                                        \
    Array a = vx::array(n *k);                                                                     \
    Serie s(k, a, dim);

#define NUMBERS                                                                                    \
    unsigned k = 1, n = vx::u32(), dim = vx::u32();                                                \
    Array a = vx::array(n);                                                                        \
    Serie s(1, a, dim);

// a second one, of a dimension of its own
#define ALIKE                                                                                      \
    ONE unsigned dim2 = vx::u32();                                                                 \
    Serie t(k, vx::array(n *k), dim2);

#define OTHER                                                                                      \
    ONE unsigned m = vx::u32(), dim2 = vx::u32();                                                  \
    Serie t(k, vx::array(m *k), dim2);

static void is(const Serie &r, unsigned k, unsigned dim) {
    vx::same("dimension", r.dimension(), dim);
    vx::same("itemSize", r.itemSize(), k);
    vx::holds("whole items", std::size_t(r.count()) * r.itemSize() == r.asArray().size());
}

void selected() {
    ONE
    is(df::filter(vx::VecBool(), s), k, dim);
    is(utils::reject(vx::VecBool(), s), k, dim);
    is(df::findAll(vx::VecBool(), s), k, dim);
    is(utils::cut(vx::VecBool(), s), k, dim);
    is(s.filter(vx::VecBool()), k, dim);
}

void selected_numbers() {
    NUMBERS
    is(df::filter(vx::NumBool(), s), 1, dim);
    is(utils::reject(vx::NumBool(), s), 1, dim);
    is(df::findAll(vx::NumBool(), s), 1, dim);
    is(utils::cut(vx::NumBool(), s), 1, dim);
    is(s.filter(vx::NumBool()), 1, dim);
}

void filtered_together() {
    ALIKE
    auto [x, y] = df::filter(vx::Vec2Bool(), s, t);
    is(x, k, dim);
    is(y, k, dim2);
}

void rejected_together() {
    ALIKE
    auto [x, y] = utils::reject(vx::Vec2Bool(), s, t);
    is(x, k, dim);
    is(y, k, dim2);
}

struct Both { bool operator()(const Array &x, const Array &y) const { return x[0] > y[0]; } };

void selected_all() {
    ALIKE
    Series r = df::filterAll(Both(), s, t), q = utils::rejectAll(Both(), s, t);
    is(r[0], k, dim);
    is(r[1], k, dim2);
    is(q[0], k, dim);
    is(q[1], k, dim2);
}

void parted() {
    ONE
    auto [yes, no] = utils::partition(vx::VecBool(), s);
    is(yes, k, dim);
    is(no, k, dim);
}

void parted_numbers() {
    NUMBERS
    auto [yes, no] = utils::partition(vx::NumBool(), s);
    is(yes, 1, dim);
    is(no, 1, dim);
}

// the pieces of REST items more than a multiple of P
template <unsigned P, unsigned REST> static void cut_in() {
    unsigned k = vx::pos(), n = vx::pos() * P + REST, dim = vx::u32();
    Serie s(k, vx::array(n * k), dim);
    Series r = utils::partition_n(P, s);
    for (unsigned i = 0; i < P; ++i) {
        is(r[i], k, dim);
    }
}

void one_piece() { cut_in<1, 0>(); }
void two_pieces() { cut_in<2, 1>(); }
void three_pieces() { cut_in<3, 0>(); }
void four_pieces() { cut_in<4, 3>(); }

void pieces_without_items() {
    unsigned k = vx::pos(), dim = vx::u32();
    Serie s(k, vx::array(2 * k), dim);
    Series r = utils::partition_n(3, s);
    for (unsigned i = 0; i < r.size(); ++i) {
        is(r[i], k, dim);
    }
}

template <unsigned P, unsigned REST> static void cut_together() {
    unsigned k = vx::pos(), m = vx::pos(), n = vx::pos() * P + REST, dim = vx::u32(), dim2 = vx::u32();
    Serie s(k, vx::array(n * k), dim), t(m, vx::array(n * m), dim2);
    std::vector<Series> r = utils::partition_n(P, s, t);
    for (unsigned i = 0; i < P; ++i) {
        is(r[0][i], k, dim);
        is(r[1][i], m, dim2);
    }
}

void two_pieces_together() { cut_together<2, 1>(); }
void three_pieces_together() { cut_together<3, 2>(); }

void sorted() {
    ONE
    is(utils::sort(s), k, dim);
    is(utils::sort(s, [](const Array &x, const Array &y) { return x[0] < y[0]; }), k, dim);
}

void sorted_numbers() {
    NUMBERS
    is(utils::sort(s), 1, dim);
    is(utils::sort(s, [](double x, double y) { return x > y; }), 1, dim);
}

void joined() {
    OTHER
    is(utils::concat(s, t), k, dim);
    is(utils::concat(t, s), k, dim2);
    is(utils::concat(std::vector<Serie>{s, t}), k, dim);
    is(df::merge(s, t), k, dim);
    is(df::merge(t, s), k, dim2);
}

void joined_one() {
    ONE
    is(utils::concat(s), k, dim);
    is(utils::concat(std::vector<Serie>{s}), k, dim);
}

void interleaved() {
    OTHER
    is(df::merge(s, t, false), k, dim);
}

void joined_many() {
    OTHER
    is(df::merge(true, s, t, s), k, dim);
}

void interleaved_many() {
    ALIKE
    is(df::merge(false, s, t, s), k, dim);
}

void arithmetic() {
    ALIKE
    double x = vx::real();
    is(math::add(s, t), k, dim);
    is(math::add({s, t}), k, dim);
    is(math::sub(s, t), k, dim);
    is(math::sub({s, t}), k, dim);
    is(math::mult(s, x), k, dim);
    is(math::div(x, s), k, dim);
    is(math::negate(s), k, dim);
    is(math::scale(s, x), k, dim);
}

void arithmetic_numbers() {
    NUMBERS
    is(math::add(s, vx::real()), 1, dim);
    is(math::sub(s, vx::real()), 1, dim);
}

void arithmetic_many() {
    ALIKE
    is(math::add(s, t, s), k, dim);
    is(math::sub(s, t, s), k, dim);
}

void scaled() {
    ONE
    is(math::scale(s, vx::array(k)), k, dim);
}

// item by item by a Serie of numbers
void scaled_by() {
    ONE
    Serie w(1, vx::array(n), vx::u32());
    is(math::mult(s, w), k, dim);
    is(math::div(w, s), k, dim);
}

void weighted() {
    ALIKE
    is(math::weigthedSum({s, t}, vx::array(2)), k, dim);
}

void normalized() {
    NUMBERS
    vx::assume(n > 0);
    is(math::normalize(s), 1, dim);
}

static void transposed(unsigned k, unsigned d) {
    unsigned n = vx::u32();
    Serie s(k, vx::array(n * k), d);
    Serie r = algebra::transpose(s);
    vx::same("dimension", r.dimension(), d);
}

void transposed_2d() { transposed(4, 2); }
void transposed_3d() { transposed(9, 3); }

void inverted() {
    unsigned n = vx::u32();
    try {
        is(algebra::inv(Serie(6, vx::array(6 * n))), 6, 3);
        is(algebra::inv(Serie(9, vx::array(9 * n))), 9, 3);
    } catch (const std::exception &) { // singular
    }
}

struct Pair {
    Array operator()(const Array &x, uint32_t) const { return {x[0], -x[0]}; }
    Array operator()(const Array &x, const Array &y, uint32_t) const { return {x[0], y[0]}; }
};
struct PairOfNumber {
    Array operator()(double x, uint32_t) const { return {x, -x}; }
};

void mapped() {
    ONE
    vx::same("number", df::map(vx::VecNum(), s).dimension(), dim);
    vx::same("vector", df::map(Pair(), s).dimension(), dim);
    vx::same("member", s.map(vx::VecNum()).dimension(), dim);
}

void mapped_numbers() {
    NUMBERS
    vx::same("number", df::map(vx::NumNum(), s).dimension(), dim);
    vx::same("vector", df::map(PairOfNumber(), s).dimension(), dim);
    vx::same("apply", utils::apply(vx::NumNum(), s).dimension(), dim);
}

void mapped_together() {
    ALIKE
    vx::same("number", df::map(vx::Vec2Num(), s, t).dimension(), dim);
    vx::same("vector", df::map(Pair(), s, t).dimension(), dim);
}

// what a 2D Serie keeps by staying 2D
void used_in_2d() {
    Array a = vx::array(6);
    Serie s(3, a, 2);
    Serie r = math::scale(utils::concat(math::negate(s), s), 2.0);
    vx::same("values", algebra::eigenValues(r).itemSize(), 2u);
    vx::same("items", algebra::eigenValues(r).count(), 4u);
    vx::same("determinants", algebra::det(r).count(), 4u);
}

void copied() {
    ONE
    is(Serie(s), k, dim);
    is(s.clone(), k, dim);
    Serie t;
    t = s;
    is(t, k, dim);
    t.reCount(vx::u32());
    is(t, k, dim);
    is(toSerie(k, a, dim), k, dim);
}

void picked_from_outliers() {
    NUMBERS
    vx::assume(n > 0);
    is(stats::outliers(s, vx::real()), 1, dim);
}

void picked_from_inliers() {
    NUMBERS
    vx::assume(n > 0);
    is(stats::notOutliers(s, vx::real()), 1, dim);
}

} // namespace F11
