// C19: the special functions and numeric helpers against extended precision.
#include "ref.hpp"
#include "ldaplusplus/utils.hpp"

using namespace vf;
using namespace ldaplusplus::math_utils;

namespace {

template <class S> double worst_exp = 0;
template <class S> double worst_dig = 0;

template <class S> void check_exp(S x) {
    S g = fast_exp<S>(x);
    typedef std::numeric_limits<S> L;
    if (std::isnan(x)) { VF_REQUIRE(std::isnan(g), "exp-nan", "%s: fast_exp(NaN) = %g", sname<S>(), (double)g); return; }
    VF_REQUIRE(!std::isnan(g) && g >= 0 && !std::signbit(g), "exp-negative", "%s: fast_exp(%.17g) = %.17g", sname<S>(), (double)x, (double)g);
    if (x == 0) { VF_REQUIRE(g == 1, "exp-zero", "%s: fast_exp(0) = %.17g", sname<S>(), (double)g); return; }
    if (std::isinf(x)) { VF_REQUIRE(x > 0 ? std::isinf(g) : g == 0, "exp-infinity", "%s: fast_exp(%g) = %.17g", sname<S>(), (double)x, (double)g); return; }
    ld e = expl(x);
    ld tol = std::fabs(x) > 100 ? 4 * (ld)L::epsilon() * 1.01L : std::max<ld>(1, 2 * fabsl((ld)x)) / 1000 + 300 * (ld)L::epsilon();
    // beyond the range of the type: overflow to infinity, underflow to zero
    if (e * (1 - tol) >= (ld)L::max()) { VF_REQUIRE(std::isinf(g), "exp-overflow", "%s: fast_exp(%.17g) = %.17g", sname<S>(), (double)x, (double)g); return; }
    if (e < 4 * (ld)L::min()) { VF_REQUIRE(g <= 8 * L::min(), "exp-underflow", "%s: fast_exp(%.17g) = %.17g", sname<S>(), (double)x, (double)g); return; }
    if (std::isinf(g)) { VF_REQUIRE(e * (1 + tol) >= (ld)L::max(), "exp-error", "%s: fast_exp(%.17g) = inf, exp is %.17Lg", sname<S>(), (double)x, e); return; }
    // 1/exp(-x) loses the reciprocal of what overflows
    ld err = fabsl(g - e) / e;
    VF_REQUIRE(err <= tol, "exp-error", "%s: fast_exp(%.17g) = %.17g, exp is %.17Lg: relative error %.3Lg > %.3Lg", sname<S>(), (double)x, (double)g, e, err, tol);
    worst_exp<S> = std::max(worst_exp<S>, (double)(err / tol));
}

template <class S> void check_digamma(S x) {
    S g = digamma<S>(x);
    ld e = ref_digamma(x);
    ld tol = (sizeof(S) == 8 ? 1e-9L : 3e-6L) * std::max<ld>(1, fabsl(e));
    VF_REQUIRE(fabsl(g - e) <= tol, "digamma", "%s: digamma(%.17g) = %.17g, exactly %.17Lg", sname<S>(), (double)x, (double)g, e);
    worst_dig<S> = std::max(worst_dig<S>, (double)(fabsl(g - e) / tol));
}

// every float in the thorough tier, a sample of the slabs in the quick one
void float_slab(Rng &r) {
    uint32_t slab = run().index;
    uint32_t step = 1;
    if (!thorough()) { slab = r.next() & 0xffff; step = 1 + (r.next() & 7); }
    long n = 0, pos = 0;
    for (uint32_t i = r.next() % step; i < 65536; i += step) {
        uint32_t bits = (slab << 16) | i;
        float x;
        memcpy(&x, &bits, 4);
        check_exp<float>(x);
        n++;
        if (x > 1e-30f && x < 1e30f) { check_digamma<float>(x); pos++; }
    }
    run().count("floats: exponentials", n);
    run().count("floats: digammas", pos);
    run().maximum("float exp: fraction of the bound", worst_exp<float>);
    run().maximum("float digamma: fraction of the bound", worst_dig<float>);
    run().distinct(mix(slab));
}

template <class S> void neighbours(S x, int n, const std::function<void(S)> &f) {
    S a = x, b = x;
    f(x);
    for (int i = 0; i < n; i++) {
        a = std::nextafter(a, std::numeric_limits<S>::infinity());
        b = std::nextafter(b, -std::numeric_limits<S>::infinity());
        f(a);
        f(b);
    }
}

// table cells: k/1024*2^j, k/1023, and their neighbours, of both signs
template <class S> void cells(Rng &r) {
    int k = run().index % 1025;
    long n = 0;
    auto f = [&](S x) { check_exp<S>(x); check_exp<S>(-x); n += 2; };
    for (int j = -3; j <= 7; j++) {
        neighbours<S>(std::ldexp(S(k) / 1024, j), 2, f);
        neighbours<S>(std::ldexp(S(k) / 1023, j), 2, f);
        for (int q = 0; q < 4; q++) f(std::ldexp(S(k + r.real()) / 1024, j));
    }
    run().count(std::string(sname<S>()) + "s: table cells", n);
    run().maximum(std::string(sname<S>()) + " exp: fraction of the bound", worst_exp<S>);
    run().distinct(mix(k * 7 + run().index));
}

template <class S> void special(Rng &r) {
    typedef std::numeric_limits<S> L;
    for (S x : {S(0), S(-0.0), S(1), S(-1), S(2), S(64), S(99), S(100), S(-100), S(101), S(-101), S(88), S(89), S(-88), S(-104), S(709), S(710), S(-745), S(-746), S(1e6), S(-1e6),
                L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::epsilon()}) {
        check_exp<S>(x);
        if (std::isfinite(x)) neighbours<S>(x, 3, [](S v) { check_exp<S>(v); });
    }
    for (int i = 0; i < 2000; i++) {
        S x;
        switch (r.uni(0, 4)) {
            case 0: { uint64_t b = r.next(); memcpy(&x, &b, sizeof x); break; }
            case 1: x = r.real(-110, 110); break;
            case 2: x = r.real(-1, 1); break;
            case 3: x = r.logreal(1e-12, 800) * (r.chance(0.5) ? 1 : -1); break;
            default: x = r.uni(-200, 200); break;
        }
        check_exp<S>(x);
    }
    for (int i = 0; i < 2000; i++) {
        S x;
        switch (r.uni(0, 3)) {
            case 0: x = r.logreal(1e-30, 1e30); break;
            case 1: x = r.logreal(1e-3, 100); break;
            case 2: x = r.uni(1, 1000); break;
            default: x = r.real(5.5, 8.5); break;
        }
        check_digamma<S>(x);
    }
    for (S x : {S(7), S(6), S(1), S(0.5), S(1e-3), S(1e3), S(1e9)}) neighbours<S>(x, 3, [](S v) { check_digamma<S>(v); });
    // the functors used on matrices are the functions
    for (int i = 0; i < 20; i++) {
        S x = r.logreal(1e-3, 50);
        VF_CHECK(CwiseDigamma<S>()(x) == digamma<S>(x), "functor", "CwiseDigamma(%g)", (double)x);
        VF_CHECK(CwiseFastExp<S>()(x) == fast_exp<S>(x) && CwiseFastExp<S>()(-x) == fast_exp<S>(-x), "functor", "CwiseFastExp(%g)", (double)x);
        VF_CHECK(std::fabs(CwiseLgamma<S>()(x) - std::lgamma((double)x)) <= 8 * L::epsilon() * (1 + std::fabs(std::lgamma((double)x))), "functor", "CwiseLgamma(%g)", (double)x);
        S q = r.normal();
        if (r.chance(0.3)) x = -x;
        VF_CHECK(std::fabs(CwiseScalarDivideByMatrix<S>(q)(x) - q / x) <= L::epsilon() * std::fabs(q / x), "functor", "CwiseScalarDivideByMatrix");
        VF_CHECK(CwiseScalarDivideByMatrix<S>(q)(0) == 0, "functor", "CwiseScalarDivideByMatrix(0)");
    }
    run().count(std::string(sname<S>()) + "s: special and random arguments", 4000);
    run().maximum(std::string(sname<S>()) + " exp: fraction of the bound", worst_exp<S>);
    run().maximum(std::string(sname<S>()) + " digamma: fraction of the bound", worst_dig<S>);
    run().distinct(r.next());
}

template <class S> void helpers(Rng &r) {
    int R = r.uni(1, 20), C = r.uni(1, 20);
    Mat<S> x(R, C);
    S scale = r.pick(std::vector<double>{1e-6, 1, 1e6});
    bool mixed = r.chance(0.2);
    for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) x(i, j) = r.chance(0.2) ? 0 : scale * (mixed ? r.real(-0.3, 1) : r.real());
    std::vector<bool> zr(R), zc(C);
    for (int i = 0; i < R; i++) if (r.chance(0.15)) x.row(i).setZero();
    for (int j = 0; j < C; j++) if (r.chance(0.15)) x.col(j).setZero();
    double t = 8 * eps<S>() * (R + C);
    Mat<S> a = x, b = x;
    normalize_rows(a);
    normalize_cols(b);
    for (int i = 0; i < R; i++) {
        ld s = 0, m = 0;
        for (int j = 0; j < C; j++) { s += x(i, j); m += std::fabs(x(i, j)); }
        if (fabsl(s) < 0.05L * m && m > 0) continue;    // cancellation
        for (int j = 0; j < C; j++) {
            ld e = m == 0 ? 0 : x(i, j) / s;
            VF_REQUIRE(fabsl(a(i, j) - e) <= 30 * t * fabsl(e), "normalize-rows", "%s: %.12g instead of %.12Lg", sname<S>(), (double)a(i, j), e);
        }
        run().count(m == 0 ? "zero rows and columns" : "rows and columns normalised");
    }
    for (int j = 0; j < C; j++) {
        ld s = 0, m = 0;
        for (int i = 0; i < R; i++) { s += x(i, j); m += std::fabs(x(i, j)); }
        if (fabsl(s) < 0.05L * m && m > 0) continue;
        for (int i = 0; i < R; i++) {
            ld e = m == 0 ? 0 : x(i, j) / s;
            VF_REQUIRE(fabsl(b(i, j) - e) <= 30 * t * fabsl(e), "normalize-cols", "%s: %.12g instead of %.12Lg", sname<S>(), (double)b(i, j), e);
        }
        run().count(m == 0 ? "zero rows and columns" : "rows and columns normalised");
    }
    // scaled sums: zero weights hide what they weight
    for (int side = 0; side < 2; side++) {
        int n = side ? C : R, w = side ? R : C;
        Mat<S> z = x;
        Vec<S> y(n), y0;
        Vec<S> res(w);
        for (int i = 0; i < w; i++) res[i] = r.chance(0.5) ? 0 : S(r.normal());
        Vec<S> start = res;
        for (int i = 0; i < n; i++) {
            y[i] = r.chance(0.3) ? 0 : S(r.normal());
            if (y[i] == 0 && r.chance(0.7)) {
                S bad = r.pick(std::vector<S>{std::numeric_limits<S>::quiet_NaN(), std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity()});
                if (side) z(r.uni(0, w - 1), i) = bad; else z(i, r.uni(0, w - 1)) = bad;
                run().count("non-finite entries with weight zero");
            }
        }
        if (side) {
            sum_cols_scaled(z, y, res);
        } else {
            Eigen::Matrix<S, 1, Eigen::Dynamic> rr = res.transpose();
            sum_rows_scaled(z, y, rr);
            res = rr.transpose();
        }
        for (int k = 0; k < w; k++) {
            ld e = start[k], m = fabsl(e);
            for (int i = 0; i < n; i++) if (y[i] != 0) { ld v = (ld)y[i] * (side ? z(k, i) : z(i, k)); e += v; m += fabsl(v); }
            VF_REQUIRE(fabsl(res[k] - e) <= t * m, side ? "sum-cols-scaled" : "sum-rows-scaled", "%s: %.12g instead of %.12Lg", sname<S>(), (double)res[k], e);
        }
        run().count("scaled sums", w);
    }
    ld p = 1;
    Mat<S> q(std::min(R, 6), std::min(C, 6));
    for (int j = 0; j < q.cols(); j++) for (int i = 0; i < q.rows(); i++) { q(i, j) = r.chance(0.3) ? 0 : S(r.chance(0.2) ? -r.real(0.5, 2) : r.real(0.5, 2)); if (q(i, j) != 0) p *= q(i, j); }
    VF_CHECK(fabsl(product_of_nonzeros(q) - p) <= 80 * eps<S>() * fabsl(p), "product", "%s: product %.12g instead of %.12Lg", sname<S>(), (double)product_of_nonzeros(q), p);
    // reshape there and back, column by column
    Vec<S> v(R * C);
    reshape_into(x, v);
    Mat<S> back = Mat<S>::Zero(R, C);
    for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) VF_REQUIRE(v[j * R + i] == x(i, j), "reshape", "%s: element (%d,%d)", sname<S>(), i, j);
    reshape_into(v, back);
    VF_CHECK(back == x, "reshape", "%s: reshaping there and back", sname<S>());
    run().distinct(r.next());
}

// The shared generator hands out every number of its sequence to exactly one thread.
void prng(Rng &r) {
    int T = r.uni(1, 6), n = r.uni(1, 400), seed = r.uni(0, 1 << 30);
    ThreadSafePRNG<std::mt19937> g(seed);
    VF_CHECK(ThreadSafePRNG<std::mt19937>::min() == std::mt19937::min() && ThreadSafePRNG<std::mt19937>::max() == std::mt19937::max(), "prng-range", "the shared generator claims the range %lu to %lu",
             (unsigned long)ThreadSafePRNG<std::mt19937>::min(), (unsigned long)ThreadSafePRNG<std::mt19937>::max());
    std::vector<std::vector<uint32_t>> got(T);
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    for (int t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            ThreadSafePRNG<std::mt19937> mine = g;      // as the E steps do
            go++;
            while (go < T) {}
            for (int i = 0; i < n; i++) got[t].push_back(mine());
        });
    for (auto &t : ts) t.join();
    std::vector<uint32_t> all, exp;
    for (auto &v : got) all.insert(all.end(), v.begin(), v.end());
    std::mt19937 ref(seed);
    for (int i = 0; i < T * n; i++) exp.push_back(ref());
    if (T == 1) VF_CHECK(all == exp, "prng-order", "the generator does not give the sequence of its seed");
    std::sort(all.begin(), all.end());
    std::sort(exp.begin(), exp.end());
    VF_CHECK(all == exp, "prng", "%d threads did not draw the first %d numbers of the sequence once each", T, T * n);
    run().count("random numbers drawn by threads", all.size());
    run().distinct(mix(seed) + T);
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C19", {
        {"all-floats", 1500, 65536, float_slab},
        {"cells-double", 2050, 20500, cells<double>},
        {"cells-float", 1025, 10250, cells<float>},
        {"special-double", 200, 40000, special<double>},
        {"special-float", 200, 20000, special<float>},
        {"helpers-double", 4000, 200000, helpers<double>},
        {"helpers-float", 4000, 200000, helpers<float>},
        {"prng", 300, 6000, prng},
    });
}
