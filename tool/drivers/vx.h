// Vocabulary of the obligations.  Nothing in here is ever compiled to code or
// run: the functions without a body are given a meaning by the analyser.
#pragma once
#include <dataframe/Serie.h>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>

namespace vx {

using ::Array;
using df::Serie;
using df::Series;

// arbitrary values
unsigned u32();               // any count or index
unsigned pos();               // at least one
int integer();                // any sign
double real();
double nan();                 // not a number
bool flag();
Array array(std::size_t n);   // n arbitrary numbers
std::vector<uint32_t> counts(std::size_t n); // n arbitrary counts
std::string name();           // an arbitrary text
void assume(bool);

// what has to hold; the label says which part of the behaviour is meant
template <class T> void same(const char *label, const T &got, const T &want);
void holds(const char *label, bool);
void never(const char *label);

// record of the calls made to the opaque callbacks since the last take()
struct Trace {};
Trace take();

// callbacks nothing is known about
struct NumNum { double operator()(double, uint32_t) const; };
struct NumInt { int operator()(double, uint32_t) const; };
struct NumVec { Array operator()(double, uint32_t) const; };
struct VecNum { double operator()(const Array &, uint32_t) const; };
struct VecVec { Array operator()(const Array &, uint32_t) const; };
struct NumBool { bool operator()(double, uint32_t) const; };
struct VecBool { bool operator()(const Array &, uint32_t) const; };
struct NumVoid { void operator()(double, uint32_t) const; };
struct VecVoid { void operator()(const Array &, uint32_t) const; };
struct Vec2Num { double operator()(const Array &, const Array &, uint32_t) const; };
struct Vec2Vec { Array operator()(const Array &, const Array &, uint32_t) const; };
struct Vec2Void { void operator()(const Array &, const Array &, uint32_t) const; };
struct Vec2Bool { bool operator()(const Array &, const Array &, uint32_t) const; };
struct Vec3Num { double operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct Vec3Vec { Array operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct Vec3Void { void operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct Fold1 { double operator()(double, double, uint32_t) const; };
struct FoldA { Array operator()(const Array &, const Array &, uint32_t) const; };

// the same for numbers and for vectors
struct AnyVoid {
    void operator()(double v, uint32_t i) const { NumVoid()(v, i); }
    void operator()(const Array &v, uint32_t i) const { VecVoid()(v, i); }
};

// functions of a Serie nothing is known about, told apart by a number
void stage(int which, const Array &a, unsigned k, unsigned dim); // recorded
unsigned pure_items(int which, const Array &a, unsigned k, unsigned dim);
unsigned pure_size(int which, const Array &a, unsigned k, unsigned dim);
unsigned pure_dimension(int which, const Array &a, unsigned k, unsigned dim);
double pure_value(int which, const Array &a, unsigned k, unsigned dim, std::size_t at);
template <int N> struct Stage {
    Serie operator()(const Serie &s) const {
        const Array &a = s.asArray();
        unsigned k = s.itemSize(), dim = s.dimension();
        stage(N, a, k, dim);
        unsigned l = pure_size(N, a, k, dim) + 1u;
        std::size_t n = static_cast<std::size_t>(pure_items(N, a, k, dim)) * l;
        Array r;
        for (std::size_t i = 0; i < n; ++i) {
            r.push_back(pure_value(N, a, k, dim, i));
        }
        return Serie(static_cast<int>(l), r, pure_dimension(N, a, k, dim));
    }
};

// an arbitrary Serie: n items of k numbers
inline Serie serie(unsigned k, unsigned n, unsigned dim = u32()) {
    return Serie(static_cast<int>(k), array(static_cast<std::size_t>(n) * k), dim);
}

// item i of an array of items of size k
inline Array item(const Array &a, unsigned k, unsigned i) {
    Array r;
    for (unsigned j = 0; j < k; ++j) {
        r.push_back(a[i * k + j]);
    }
    return r;
}

inline void append(Array &to, const Array &x) {
    for (std::size_t j = 0; j < x.size(); ++j) {
        to.push_back(x[j]);
    }
}

// whether got holds these values, as items of size k
inline void serie_is(const Serie &got, unsigned k, const Array &want) {
    same("values", got.asArray(), want);
    same("itemSize", got.itemSize(), k);
    holds("C02:shape", static_cast<std::size_t>(got.count()) * got.itemSize() == got.asArray().size());
}

// ... and the space dimension of the input
inline void serie_is(const Serie &got, unsigned k, unsigned dim, const Array &want) {
    serie_is(got, k, want);
    same("F11:dimension", got.dimension(), dim);
}

// an input that has to be as it was
inline void kept(const Serie &s, unsigned k, unsigned n, unsigned dim, const Array &a) {
    same("F10:values", s.asArray(), a);
    same("F10:itemSize", s.itemSize(), k);
    same("F10:count", s.count(), n);
    same("F10:dimension", s.dimension(), dim);
}

} // namespace vx

#define VX_REJECTS(expr)                                                                           \
    do {                                                                                           \
        bool vx_rejected = false;                                                                  \
        try {                                                                                      \
            (void)(expr);                                                                          \
        } catch (const std::exception &) {                                                         \
            vx_rejected = true;                                                                    \
        }                                                                                          \
        vx::holds("rejected", vx_rejected);                                                        \
    } while (0)
