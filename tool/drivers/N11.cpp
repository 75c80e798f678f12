#include "vx.h"
#include <cmath>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/geo/normals.h>

using namespace df;

namespace N11 {

static Array normal(const Array &p, const Array &q, const Array &r) {
    double ax = q[0] - p[0], ay = q[1] - p[1], az = q[2] - p[2];
    double bx = r[0] - p[0], by = r[1] - p[1], bz = r[2] - p[2];
    return Array{ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx};
}

// a mesh of any number of triangles over any number of points
struct Mesh {
    unsigned np, nt;
    Array points, corners;
    std::vector<uint32_t> at;
};

static Mesh mesh() {
    Mesh m;
    m.np = vx::pos();
    m.nt = vx::pos();
    m.points = vx::array(3 * m.np);
    std::vector<uint32_t> c = vx::counts(3 * m.nt);
    for (unsigned i = 0; i < 3 * m.nt; ++i) {
        m.at.push_back(c[i] % m.np);
        m.corners.push_back(c[i] % m.np);
    }
    return m;
}

void normals() {
    Mesh m = mesh();
    Array want;
    for (unsigned i = 0; i < m.nt; ++i) {
        vx::append(want, normal(vx::item(m.points, 3, m.at[3 * i]), vx::item(m.points, 3, m.at[3 * i + 1]),
                                vx::item(m.points, 3, m.at[3 * i + 2])));
    }
    Serie p(3, m.points), t(3, m.corners);
    vx::serie_is(geo::normals(p, t), 3, want);
    vx::kept(p, 3, m.np, 3, m.points);
    vx::kept(t, 3, m.nt, 3, m.corners);
}

void areas() {
    Mesh m = mesh();
    Array want;
    for (unsigned i = 0; i < m.nt; ++i) {
        Array n = normal(vx::item(m.points, 3, m.at[3 * i]), vx::item(m.points, 3, m.at[3 * i + 1]),
                         vx::item(m.points, 3, m.at[3 * i + 2]));
        want.push_back(std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2);
    }
    Serie p(3, m.points), t(3, m.corners);
    vx::serie_is(geo::areas(p, t), 1, want);
    vx::kept(p, 3, m.np, 3, m.points);
    vx::kept(t, 3, m.nt, 3, m.corners);
}

void one_triangle() {
    unsigned np = vx::pos(), a = vx::u32(), b = vx::u32(), c = vx::u32();
    vx::assume(a < np);
    vx::assume(b < np);
    vx::assume(c < np);
    Array p = vx::array(3 * np);
    Array n = normal(vx::item(p, 3, a), vx::item(p, 3, b), vx::item(p, 3, c));
    Serie s(3, p, vx::u32()), t(3, Array{double(a), double(b), double(c)});
    vx::serie_is(geo::normals(s, t), 3, n);
    vx::serie_is(geo::areas(s, t), 1, Array{std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2});
}

void four_points() {
    Array p = vx::array(12);
    Serie s(3, p, vx::u32()), t(3, Array{0, 1, 2, 3, 2, 0});
    Array want = normal(vx::item(p, 3, 0), vx::item(p, 3, 1), vx::item(p, 3, 2));
    vx::append(want, normal(vx::item(p, 3, 3), vx::item(p, 3, 2), vx::item(p, 3, 0)));
    vx::serie_is(geo::normals(s, t), 3, want);
}

// a corner that is no point
void wrong_corner() {
    unsigned np = vx::pos(), a = vx::u32(), b = vx::u32();
    double c = vx::real(), d = vx::real();
    vx::assume(a < np);
    vx::assume(b < np);
    vx::assume(c >= np);
    vx::assume(d < 0);
    Serie s(3, vx::array(3 * np));
    VX_REJECTS(geo::normals(s, Serie(3, Array{c, double(a), double(b)})));
    VX_REJECTS(geo::normals(s, Serie(3, Array{double(a), c, double(b)})));
    VX_REJECTS(geo::normals(s, Serie(3, Array{double(a), double(b), c})));
    VX_REJECTS(geo::normals(s, Serie(3, Array{d, double(a), double(b)})));
    VX_REJECTS(geo::normals(s, Serie(3, Array{double(a), double(b), d})));
    VX_REJECTS(geo::areas(s, Serie(3, Array{double(a), double(b), c})));
}

void wrong_sizes() {
    unsigned k = vx::pos(), n = vx::pos(), m = vx::pos();
    vx::assume(k != 3);
    Serie s(k, vx::array(k * n)), t(3, vx::array(3 * m));
    vx::same("points", geo::normals(s, t).asArray().size(), std::size_t(0));
    vx::same("triangles", geo::normals(t, s).asArray().size(), std::size_t(0));
    vx::same("no points", geo::normals(Serie(), t).asArray().size(), std::size_t(0));
    vx::same("no triangles", geo::normals(t, Serie()).asArray().size(), std::size_t(0));
    vx::same("area, no points", geo::areas(Serie(), t).asArray().size(), std::size_t(0));
    vx::same("area, no triangles", geo::areas(t, Serie()).asArray().size(), std::size_t(0));
}

static double coordinate(double from, double to, unsigned n, unsigned i) {
    if (n > 1) {
        return from + i * ((to - from) / (n - 1));
    }
    return from;
}

void grid_points_3d() {
    unsigned nx = vx::pos(), ny = vx::pos(), nz = vx::pos();
    Array p = vx::array(3), q = vx::array(3), want;
    for (unsigned k = 0; k < nz; ++k) {
        for (unsigned j = 0; j < ny; ++j) {
            for (unsigned i = 0; i < nx; ++i) {
                want.push_back(coordinate(p[0], q[0], nx, i));
                want.push_back(coordinate(p[1], q[1], ny, j));
                want.push_back(coordinate(p[2], q[2], nz, k));
            }
        }
    }
    vx::serie_is(grid::cartesian::from_points({nx, ny, nz}, p, q), 3, want);
}

void grid_points_2d() {
    unsigned nx = vx::pos(), ny = vx::pos();
    Array p = vx::array(3), q = vx::array(3), want;
    for (unsigned j = 0; j < ny; ++j) {
        for (unsigned i = 0; i < nx; ++i) {
            want.push_back(coordinate(p[0], q[0], nx, i));
            want.push_back(coordinate(p[1], q[1], ny, j));
            want.push_back(p[2]);
        }
    }
    vx::serie_is(grid::cartesian::from_points({nx, ny}, p, q), 3, want);
}

void grid_points_1d() {
    unsigned nx = vx::pos();
    Array p = vx::array(3), q = vx::array(3), want;
    for (unsigned i = 0; i < nx; ++i) {
        want.push_back(coordinate(p[0], q[0], nx, i));
        want.push_back(p[1]);
        want.push_back(p[2]);
    }
    vx::serie_is(grid::cartesian::from_points({nx}, p, q), 3, want);
}

// grids of a few points, to the last one
template <unsigned NX, unsigned NY, unsigned NZ> static void small() {
    Array p = vx::array(3), d = vx::array(3), want, dims;
    for (unsigned k = 0; k < NZ; ++k) {
        for (unsigned j = 0; j < NY; ++j) {
            for (unsigned i = 0; i < NX; ++i) {
                want.push_back(coordinate(p[0], d[0], NX, i));
                want.push_back(coordinate(p[1], d[1], NY, j));
                want.push_back(coordinate(p[2], d[2], NZ, k));
                dims.push_back(coordinate(p[0] - d[0] / 2, p[0] + d[0] / 2, NX, i));
                dims.push_back(coordinate(p[1] - d[1] / 2, p[1] + d[1] / 2, NY, j));
                dims.push_back(coordinate(p[2] - d[2] / 2, p[2] + d[2] / 2, NZ, k));
            }
        }
    }
    vx::serie_is(grid::cartesian::from_points({NX, NY, NZ}, p, d), 3, want);
    vx::serie_is(grid::cartesian::from_dims({NX, NY, NZ}, p, d), 3, dims);
}
void small_234() { small<2, 3, 4>(); }
void small_321() { small<3, 2, 1>(); }
void small_112() { small<1, 1, 2>(); }

void grid_dims_3d() {
    unsigned nx = vx::pos(), ny = vx::pos(), nz = vx::pos();
    Array c = vx::array(3), d = vx::array(3), want;
    for (unsigned k = 0; k < nz; ++k) {
        for (unsigned j = 0; j < ny; ++j) {
            for (unsigned i = 0; i < nx; ++i) {
                want.push_back(coordinate(c[0] - d[0] / 2, c[0] + d[0] / 2, nx, i));
                want.push_back(coordinate(c[1] - d[1] / 2, c[1] + d[1] / 2, ny, j));
                want.push_back(coordinate(c[2] - d[2] / 2, c[2] + d[2] / 2, nz, k));
            }
        }
    }
    vx::serie_is(grid::cartesian::from_dims({nx, ny, nz}, c, d), 3, want);
}

void grid_dims_2d() {
    unsigned nx = vx::pos(), ny = vx::pos();
    Array c = vx::array(3), d = vx::array(3), want;
    for (unsigned j = 0; j < ny; ++j) {
        for (unsigned i = 0; i < nx; ++i) {
            want.push_back(coordinate(c[0] - d[0] / 2, c[0] + d[0] / 2, nx, i));
            want.push_back(coordinate(c[1] - d[1] / 2, c[1] + d[1] / 2, ny, j));
            want.push_back(c[2] - d[2] / 2);
        }
    }
    vx::serie_is(grid::cartesian::from_dims({nx, ny}, c, d), 3, want);
}

void grid_dims_1d() {
    unsigned nx = vx::pos();
    Array c = vx::array(3), d = vx::array(3), want;
    for (unsigned i = 0; i < nx; ++i) {
        want.push_back(coordinate(c[0] - d[0] / 2, c[0] + d[0] / 2, nx, i));
        want.push_back(c[1] - d[1] / 2);
        want.push_back(c[2] - d[2] / 2);
    }
    vx::serie_is(grid::cartesian::from_dims({nx}, c, d), 3, want);
}

void unit_grid() {
    unsigned nx = vx::pos();
    vx::same("centred unit line", grid::cartesian::from_dims({nx}).asArray(),
             grid::cartesian::from_dims({nx}, Array{0, 0, 0}, Array{1, 1, 1}).asArray());
}

void wrong_grids() {
    unsigned l = vx::u32(), m = vx::u32();
    vx::assume(l != 3);
    vx::assume(m > 3);
    Array p = vx::array(3), q = vx::array(l);
    VX_REJECTS(grid::cartesian::from_points({2u}, p, q));
    VX_REJECTS(grid::cartesian::from_points({2u}, q, p));
    VX_REJECTS(grid::cartesian::from_dims({2u}, p, q));
    VX_REJECTS(grid::cartesian::from_dims({2u}, q, p));
    VX_REJECTS(grid::cartesian::from_points(std::vector<uint32_t>(), p, p));
    VX_REJECTS(grid::cartesian::from_dims(std::vector<uint32_t>(), p, p));
    VX_REJECTS(grid::cartesian::from_points(vx::counts(m), p, p));
    VX_REJECTS(grid::cartesian::from_dims(vx::counts(m), p, p));
}

} // namespace N11
