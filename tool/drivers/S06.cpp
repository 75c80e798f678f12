#include "vx.h"
#include <cmath>
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/quantile.h>

using namespace df;

namespace S06 {

// returns or throws; the analyser looks at every access on the way
#define FINE(...)                                                                                  \
    do {                                                                                           \
        try {                                                                                      \
            (void)(__VA_ARGS__);                                                                   \
        } catch (const std::exception &) {                                                         \
        }                                                                                          \
        vx::holds("after " #__VA_ARGS__, true);                                                    \
    } while (0)

#define MESH                                                                                       \
    unsigned n = vx::u32(), m = vx::u32();                                                         \
    Serie p(3, vx::array(3 * n)), t(3, vx::array(3 * m));

void normals() {
    MESH
    FINE(geo::normals(p, t));
}

void areas() {
    MESH
    FINE(geo::areas(p, t));
}

static void frame(Dataframe &f, const Serie &p, const Serie &t) {
    f.add("positions", p);
    f.add("indices", t);
}

void decomposed_normals() {
    MESH
    Dataframe f;
    frame(f, p, t);
    const Dataframe &r = f;
    Normals d("n");
    FINE(d.serie(r, 3, "n"));
}

void decomposed_areas() {
    MESH
    Dataframe f;
    frame(f, p, t);
    const Dataframe &r = f;
    Area d("a");
    FINE(d.serie(r, 1, "a"));
}

void valence() {
    MESH
    Dataframe f;
    frame(f, p, t);
    const Dataframe &r = f;
    Valence d("v");
    FINE(d.serie(r, 1, "v"));
}

// one triangle of a mesh of n points, one of its corners is c
template <unsigned AT> static Serie with(double c, unsigned n) {
    unsigned i = vx::u32(), j = vx::u32();
    vx::assume(i < n);
    vx::assume(j < n);
    double x = i, y = j;
    return Serie(3, AT == 0 ? Array{c, x, y} : AT == 1 ? Array{x, c, y} : Array{x, y, c});
}

template <unsigned AT> static void refused(double c, unsigned n) {
    Serie p(3, vx::array(3 * n)), t = with<AT>(c, n);
    VX_REJECTS(geo::normals(p, t));
    VX_REJECTS(geo::areas(p, t));
}

template <unsigned AT> static void refused_by_decomposers(double c, unsigned n) {
    Serie p(3, vx::array(3 * n)), t = with<AT>(c, n);
    Dataframe f;
    frame(f, p, t);
    const Dataframe &r = f;
    Normals d("n");
    Area a("a");
    Valence v("v");
    VX_REJECTS(d.serie(r, 3, "n"));
    VX_REJECTS(a.serie(r, 1, "a"));
    VX_REJECTS(v.serie(r, 1, "v"));
}

template <unsigned AT> static void beyond() {
    unsigned n = vx::pos();
    double c = vx::real();
    vx::assume(c >= n);
    refused<AT>(c, n);
    refused_by_decomposers<AT>(c, n);
}

template <unsigned AT> static void negative() {
    unsigned n = vx::pos();
    double c = vx::real();
    vx::assume(c <= -1);
    refused<AT>(c, n);
    refused_by_decomposers<AT>(c, n);
}

template <unsigned AT> static void no_number() {
    unsigned n = vx::pos();
    refused<AT>(vx::nan(), n);
    refused_by_decomposers<AT>(vx::nan(), n);
}

void first_corner_beyond() { beyond<0>(); }
void second_corner_beyond() { beyond<1>(); }
void third_corner_beyond() { beyond<2>(); }
void first_corner_negative() { negative<0>(); }
void second_corner_negative() { negative<1>(); }
void third_corner_negative() { negative<2>(); }
void first_corner_no_number() { no_number<0>(); }
void second_corner_no_number() { no_number<1>(); }
void third_corner_no_number() { no_number<2>(); }

// a later triangle
void last_triangle() {
    unsigned n = vx::pos(), m = vx::pos();
    double c = vx::real();
    vx::assume(c >= n || c <= -1);
    Array corners;
    for (unsigned i = 0; i < m; ++i) {
        vx::append(corners, Array{0, 0, 0});
    }
    vx::append(corners, Array{0, 0, c});
    Serie p(3, vx::array(3 * n)), t(3, corners, vx::u32());
    VX_REJECTS(geo::normals(p, t));
    VX_REJECTS(geo::areas(p, t));
}

void histogram() {
    unsigned n = vx::u32(), nb = vx::u32();
    Serie s(1, vx::array(n));
    double x = vx::real(), y = vx::real();
    FINE(stats::bins(s, nb, x, y));
    FINE(stats::bins(s, nb));
}

// left out
template <unsigned NB> static void outside() {
    double x = vx::real(), y = vx::real(), v = vx::real();
    vx::assume(x < y);
    vx::assume(v < x || v > y);
    Array none(NB, 0);
    vx::same("outside", stats::bins(Serie(1, Array{v}), NB, x, y).asArray(), none);
    vx::same("no number", stats::bins(Serie(1, Array{vx::nan()}), NB, x, y).asArray(), none);
    vx::same("both", stats::bins(Serie(1, Array{v, vx::nan(), v}), NB, x, y).asArray(), none);
}

void outside_1() { outside<1>(); }
void outside_2() { outside<2>(); }
void outside_5() { outside<5>(); }

// bounds that are no bounds
void without_bounds() {
    unsigned nb = vx::pos();
    double x = vx::real(), v = vx::real();
    Serie s(1, Array{v});
    FINE(stats::bins(s, nb, x, vx::nan()));
    FINE(stats::bins(s, nb, vx::nan(), x));
    FINE(stats::bins(s, nb, vx::nan(), vx::nan()));
    FINE(stats::bins(Serie(1, Array{vx::nan()}), nb));
    FINE(stats::bins(s, nb, x, x));
    FINE(stats::bins(s, nb, x, x - 1));
    FINE(stats::bins(Serie(1, Array{x, x}), nb));
    FINE(stats::bins(Serie(1, Array{x, vx::nan()}), nb));
}

// the position of a quantile
void quantiles() {
    unsigned n = vx::pos();
    Serie s(1, vx::array(n));
    FINE(stats::quantile(s, vx::nan()));
    FINE(stats::quantile(s, vx::real()));
    FINE(stats::q25(s));
    FINE(stats::q75(s));
}

} // namespace S06
