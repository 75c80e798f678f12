#include "vx.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/parallel_execute.h>

using namespace df;

namespace F16 {

struct Num { double operator()(double) const; };
struct Vec { double operator()(const Array &) const; };

void deep_numbers() {
    unsigned n = vx::u32(), cores = vx::pos(), dim = vx::u32();
    vx::assume(n >= 1);
    Array a = vx::array(n), want;
    Num f;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(f(a[i]));
    }
    Serie s(1, a, dim);
    auto job = [f](const Serie &x) { return df::map([f](double v, uint32_t) { return f(v); }, x); };
    vx::serie_is(utils::parallel_execute(job, s, cores), 1, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void deep_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), cores = vx::pos(), dim = vx::u32();
    vx::assume(n >= 1);
    vx::assume(k >= 2);
    Array a = vx::array(n * k), want;
    Vec f;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i)));
    }
    Serie s(k, a, dim);
    auto job = [f](const Serie &x) { return df::map([f](const Array &v, uint32_t) { return f(v); }, x); };
    vx::serie_is(utils::parallel_execute(job, s, cores), 1, dim, want);
}

void deep_identity_vectors() {
    unsigned k = vx::pos(), n = vx::u32(), cores = vx::pos(), dim = vx::u32();
    vx::assume(n >= 1);
    Array a = vx::array(n * k);
    Serie s(k, a, dim);
    auto job = [](const Serie &x) { return x; };
    vx::serie_is(utils::parallel_execute(job, s, cores), k, dim, a);
}

// all counts of REST modulo CORES, from CORES upwards
template <unsigned CORES, unsigned REST> void rest() {
    unsigned q = vx::pos(), n = q * CORES + REST, dim = vx::u32();
    Array a = vx::array(n), want;
    Num f;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(f(a[i]));
    }
    Serie s(1, a, dim);
    auto job = [f](const Serie &x) { return df::map([f](double v, uint32_t) { return f(v); }, x); };
    vx::serie_is(utils::parallel_execute(job, s, CORES), 1, dim, want);
    vx::kept(s, 1, n, dim, a);
}

void one_core() { rest<1, 0>(); }
void two_cores_0() { rest<2, 0>(); }
void two_cores_1() { rest<2, 1>(); }
void three_cores_0() { rest<3, 0>(); }
void three_cores_1() { rest<3, 1>(); }
void three_cores_2() { rest<3, 2>(); }
void four_cores_3() { rest<4, 3>(); }

void vectors_two_cores() {
    unsigned k = vx::pos(), q = vx::pos(), n = q * 2 + 1, dim = vx::u32();
    vx::assume(k >= 2);
    Array a = vx::array(n * k), want;
    Vec f;
    for (unsigned i = 0; i < n; ++i) {
        want.push_back(f(vx::item(a, k, i)));
    }
    Serie s(k, a, dim);
    auto job = [f](const Serie &x) { return df::map([f](const Array &v, uint32_t) { return f(v); }, x); };
    vx::serie_is(utils::parallel_execute(job, s, 2), 1, dim, want);
    vx::kept(s, k, n, dim, a);
}

void few_items() {
    double x = vx::real(), y = vx::real(), z = vx::real();
    unsigned cores = vx::pos();
    Num f;
    Serie s(1, Array{x, y, z});
    auto job = [f](const Serie &v) { return df::map([f](double u, uint32_t) { return f(u); }, v); };
    vx::serie_is(utils::parallel_execute(job, s, 2), 1, Array{f(x), f(y), f(z)});
    vx::serie_is(utils::parallel_execute(job, s, 5), 1, Array{f(x), f(y), f(z)});
}

void no_core() {
    unsigned n = vx::u32();
    Serie s(1, vx::array(n));
    auto job = [](const Serie &x) { return x; };
    VX_REJECTS(utils::parallel_execute(job, s, 0));
}

void job_fails() {
    unsigned n = vx::u32(), cores = vx::pos();
    vx::assume(n >= 1);
    Serie s(1, vx::array(n));
    auto job = [](const Serie &x) -> Serie { throw std::runtime_error("no"); };
    VX_REJECTS(utils::parallel_execute(job, s, cores));
}

void last_job_fails() {
    unsigned q = vx::pos(), n = 2 * q + 1;
    Array a = vx::array(n);
    Serie s(1, a, vx::u32());
    auto job = [](const Serie &x) -> Serie {
        for (unsigned i = 0; i < x.count(); ++i) {
            if (x.asArray()[i] > 0) {
                throw std::runtime_error("no");
            }
        }
        return x;
    };
    bool any = false;
    for (unsigned i = 0; i < n; ++i) {
        if (a[i] > 0) {
            any = true;
        }
    }
    bool failed = false;
    try {
        utils::parallel_execute(job, s, 2);
    } catch (const std::exception &) {
        failed = true;
    }
    vx::same("failed", failed, any);
}

void job_changes_count() {
    unsigned n = vx::u32(), cores = vx::u32();
    vx::assume(n >= 2);
    vx::assume(cores >= 2);
    Serie s(1, vx::array(n));
    auto job = [](const Serie &x) { return Serie(1, x.count() + 1); };
    VX_REJECTS(utils::parallel_execute(job, s, cores));
}

} // namespace F16
