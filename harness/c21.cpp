// C21: objectives, gradients, line search and descent of the optimisers.
#include "ref.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"

using namespace vf;
using namespace ldaplusplus::optimization;

namespace {

// ------------------------------------------------------------ objectives

template <class S> struct Problem {
    Mat<S> X;
    std::vector<Mat<S>> var;
    VectorXi y;
    Vec<S> w;           // given class weights, empty: derived
    S L;
    int D, C, N;
    LMat lx;
    std::vector<LMat> lvar;
    LVec lw;
};

template <class S> Problem<S> gen(Rng &r, bool second) {
    Problem<S> p;
    p.D = r.uni(1, 12);
    p.C = r.uni(1, 6);
    p.N = r.pick(std::vector<int>{1, 2, 5, 12, 40});
    if (r.chance(0.02)) p.D = r.uni(13, 60);
    if (r.chance(0.02)) p.C = r.uni(7, 25);
    if (r.chance(0.02)) p.N = r.uni(41, 300);
    p.X = Mat<S>(p.D, p.N);
    double sc = r.pick(std::vector<double>{0.1, 1, 1, 5});
    bool simplex = r.chance(0.4);
    for (int n = 0; n < p.N; n++) {
        for (int i = 0; i < p.D; i++) p.X(i, n) = simplex ? r.expo() : sc * r.normal();
        if (simplex) p.X.col(n) /= p.X.col(n).sum();
        if (r.chance(0.05)) p.X.col(n).setZero();
    }
    p.y = VectorXi(p.N);
    int lab = r.uni(0, 2), miss = r.uni(0, p.C - 1);
    for (int n = 0; n < p.N; n++) {
        int c = r.uni(0, p.C - 1);
        if (lab == 1 && c == miss) c = (c + 1) % p.C;
        if (lab == 2 && r.chance(0.85)) c = miss;
        p.y[n] = c;
    }
    if (second)
        for (int n = 0; n < p.N; n++) {
            Mat<S> a(p.D, 2);
            for (int i = 0; i < p.D; i++) for (int j = 0; j < 2; j++) a(i, j) = 0.3 * r.normal();
            Mat<S> v = a * a.transpose();
            if (r.chance(0.3)) {       // not symmetric: only the symmetric part counts
                Mat<S> b = Mat<S>::Zero(p.D, p.D);
                for (int i = 0; i < p.D; i++) for (int j = 0; j < i; j++) { b(i, j) = 0.2 * r.normal(); b(j, i) = -b(i, j); }
                v += b;
            }
            if (r.chance(0.1)) v.setZero();
            p.var.push_back(v);
        }
    p.L = r.pick(std::vector<double>{0, 1e-3, 1e-2, 1, 10, 10, 300});
    if (r.chance(0.5)) {
        p.w = Vec<S>(p.C);
        for (int c = 0; c < p.C; c++) p.w[c] = r.pick(std::vector<double>{0, 0.3, 1, 4});
    }
    p.lx = to_ld(p.X);
    for (auto &v : p.var) p.lvar.push_back(to_ld(v));
    if (p.w.rows()) p.lw = to_ld(p.w).col(0);
    else p.lw = ref_class_weights(p.y);
    return p;
}

template <class S> Mat<S> gen_eta(Rng &r, int D, int C) {
    Mat<S> e(D, C);
    double sc = r.pick(std::vector<double>{0, 1e-3, 0.3, 1, 3, 30, 300});
    for (int i = 0; i < D; i++) for (int c = 0; c < C; c++) e(i, c) = sc * r.normal();
    if (r.chance(0.1)) for (int c = 1; c < C; c++) e.col(c) = e.col(0);
    return e;
}

template <class S> MultinomialLogisticRegression<S> first_order(const Problem<S> &p) {
    return p.w.rows() ? MultinomialLogisticRegression<S>(p.X, p.y, p.w, p.L) : MultinomialLogisticRegression<S>(p.X, p.y, p.L);
}
template <class S> SecondOrderLogisticRegressionApproximation<S> second_order(const Problem<S> &p) {
    return p.w.rows() ? SecondOrderLogisticRegressionApproximation<S>(p.X, p.var, p.y, p.w, p.L)
                      : SecondOrderLogisticRegressionApproximation<S>(p.X, p.var, p.y, p.L);
}

template <class S, class O> void compare(Rng &r, const Problem<S> &p, const O &o, bool second) {
    std::string who = fmt("%s %s D=%d C=%d N=%d weights %s L=%g", sname<S>(), second ? "second order" : "first order", p.D, p.C, p.N, p.w.rows() ? "given" : "derived", (double)p.L);
    int points = r.uni(1, 4);
    for (int q = 0; q < points; q++) {
        Mat<S> eta = gen_eta<S>(r, p.D, p.C), eta0 = eta;
        LMat le = to_ld(eta);
        auto *var = second ? &p.lvar : nullptr;
        ld v = ref_logistic(p.lx, p.y, p.lw, p.L, le, var);
        LMat g = ref_logistic_grad(p.lx, p.y, p.lw, p.L, le, var);
        // rounding: of the scores (relative to their size), of the sums, of the
        // quadratic forms
        ld vs = 0, gs = 0;
        LMat ge = LMat::Zero(p.D, p.C);
        for (int n = 0; n < p.N; n++) {
            ld ts = 0, q = 0, vm = 0;
            for (int c = 0; c < p.C; c++) {
                ts = std::max<ld>(ts, (le.col(c).cwiseAbs().transpose() * p.lx.col(n).cwiseAbs()).value());
                if (second) {
                    ld qa = (le.col(c).cwiseAbs().transpose() * p.lvar[n].cwiseAbs() * le.col(c).cwiseAbs()).value();
                    ld qq = 1 + 0.5L * (le.col(c).transpose() * p.lvar[n] * le.col(c)).value();
                    q = std::max(q, qa / qq);
                    vm = std::max<ld>(vm, (p.lvar[n].cwiseAbs() * le.col(c).cwiseAbs()).maxCoeff() / qq);
                }
            }
            vs += p.lw[p.y[n]] * (4 + 2 * ts + q + logl(p.C));
            gs += p.lw[p.y[n]] * (4 + 2 * ts + q) * (p.lx.col(n).cwiseAbs().maxCoeff() + vm);
        }
        vs += p.L * le.squaredNorm();
        gs += p.L * le.cwiseAbs().maxCoeff();
        ld k = 4 * eps<S>() * (8 + p.D + p.C + p.N);
        S got = o.value(eta);
        VF_REQUIRE(fabsl(got - v) <= k * vs + 1e-300L, "value", "%s: value %.12g instead of %.12Lg (eta %s)", who.c_str(), (double)got, v, show(eta).c_str());
        Mat<S> grad = Mat<S>::Constant(p.D, p.C, 7);
        o.gradient(eta, grad);
        ld d = (to_ld(grad) - g).cwiseAbs().maxCoeff();
        VF_REQUIRE(d <= k * gs + 1e-300L, "gradient", "%s: gradient %s instead of %s (%Lg > %Lg)", who.c_str(), show(grad).c_str(), show(g.cast<double>()).c_str(), d, k * gs);
        run().maximum("gradient: fraction of the allowed difference used", gs > 0 ? (double)(d / (k * gs)) : 0);
        VF_CHECK(same_bits(eta, eta0), "eta-changed", "%s: evaluation changes its argument", who.c_str());
        // the reference gradient is the derivative of the reference value
        if (sizeof(S) == 8 && le.cwiseAbs().maxCoeff() < 10 && r.chance(0.2)) {
            LMat dir(p.D, p.C);
            for (int i = 0; i < p.D; i++) for (int c = 0; c < p.C; c++) dir(i, c) = r.normal();
            ld h = 1e-6L, num = (ref_logistic(p.lx, p.y, p.lw, p.L, le + h * dir, var) - ref_logistic(p.lx, p.y, p.lw, p.L, le - h * dir, var)) / (2 * h);
            ld ana = (g.array() * dir.array()).sum();
            VF_CHECK(fabsl(num - ana) <= 1e-6L * (1 + gs + fabsl(ana)), "reference", "%s: derivative %Lg, difference quotient %Lg", who.c_str(), ana, num);
            run().count("gradients compared with difference quotients");
        }
        run().count(second ? "second order objectives compared" : "first order objectives compared");
        run().distinct(mix(hash_str(who) + val((double)v * 1e6)));
    }
    run().sample(who);
}

template <class S> void objective(Rng &r) {
    bool second = r.chance(0.5);
    auto p = gen<S>(r, second);
    if (second) compare<S>(r, p, second_order<S>(p), true);
    else compare<S>(r, p, first_order<S>(p), false);
}

// ------------------------------------------------------------ line search

// A function to be minimised that records where it is evaluated.
template <class S> struct Fn {
    int type;
    Mat<S> A, b;
    std::shared_ptr<MultinomialLogisticRegression<S>> mlr;
    Problem<S> data;
    mutable long values = 0, gradients = 0;
    bool record = false;
    mutable std::vector<std::pair<Mat<S>, Mat<S>>> seen;
    static S rep(S v) { return v; }

    S raw(const Mat<S> &x) const {
        switch (type) {
            case 0: { Mat<S> d = x - b; return S(0.5) * (d.array() * (A * d).array()).sum(); }
            case 1: { S s = 0; for (int i = 0; i < x.size(); i++) { S d = x.data()[i] - b.data()[i]; s += d * d * d * d + S(0.1) * d * d; } return s; }
            case 2: {   // a wall: infinite beyond it
                S s = 0;
                for (int i = 0; i < x.size(); i++) { S v = x.data()[i] - b.data()[i]; s += v * v; if (x.data()[i] > 3) return std::numeric_limits<S>::infinity(); }
                return s;
            }
            case 3: { S s = 0; for (int i = 0; i < x.size(); i++) { S d = x.data()[i] - b.data()[i]; s += std::sin(3 * d) + S(0.2) * d * d; } return s; }
            default: return mlr->value(x);
        }
    }
    void rawg(const Mat<S> &x, Mat<S> &g) const {
        switch (type) {
            case 0: g = A * (x - b); break;
            case 1: for (int i = 0; i < x.size(); i++) { S d = x.data()[i] - b.data()[i]; g.data()[i] = 4 * d * d * d + S(0.2) * d; } break;
            case 2: g = 2 * (x - b); break;
            case 3: for (int i = 0; i < x.size(); i++) { S d = x.data()[i] - b.data()[i]; g.data()[i] = 3 * std::cos(3 * d) + S(0.4) * d; } break;
            default: mlr->gradient(x, g);
        }
    }
    S value(const Mat<S> &x) const { values++; return raw(x); }
    void gradient(const Mat<S> &x, Eigen::Ref<Mat<S>> g) const { gradients++; Mat<S> t(x.rows(), x.cols()); rawg(x, t); g = t; if (record) seen.push_back({x, t}); }
};

template <class S> std::shared_ptr<Fn<S>> gen_fn(Rng &r, Mat<S> &x) {
    auto f = std::make_shared<Fn<S>>();
    f->type = r.uni(0, 4);
    int R = r.uni(1, 6), C = r.uni(1, 4);
    if (f->type == 4) {
        f->data = gen<S>(r, false);
        R = f->data.D; C = f->data.C;
        f->mlr = std::make_shared<MultinomialLogisticRegression<S>>(first_order<S>(f->data));
    }
    Mat<S> q(R, R);
    for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) q(i, j) = r.normal();
    f->A = q * q.transpose() * S(r.logreal(0.05, 20));
    f->b = Mat<S>(R, C);
    x = Mat<S>(R, C);
    double sc = r.pick(std::vector<double>{0, 1e-4, 1, 2, 2});
    for (int i = 0; i < x.size(); i++) { f->b.data()[i] = 0.5 * r.normal(); x.data()[i] = (f->type == 4 ? 0 : f->b.data()[i]) + sc * r.normal(); if (f->type == 2) x.data()[i] = std::min<S>(x.data()[i], 2.9); }
    return f;
}

// step a for which to = from - a * direction, out of 1, tau, tau^2, ...; n or -1
template <class S> int find_step(const Mat<S> &from, const Mat<S> &to, const Mat<S> &dir, S tau) {
    S a = 1;
    for (int n = 0; n < 1300; n++) {
        bool ok = true;
        for (int i = 0; i < from.size() && ok; i++) {
            ld e = (ld)from.data()[i] - (ld)a * dir.data()[i];
            ok = fabsl(e - to.data()[i]) <= eps<S>() * (4 * fabsl(from.data()[i]) + (4 + n) * fabsl((ld)a * dir.data()[i])) + 4 * (ld)std::numeric_limits<S>::denorm_min();
        }
        if (ok) return n;
        a *= tau;
        if (a == 0) break;
    }
    return -1;
}

// Is `to` where a backtracking search from `from` has to end?
template <class S> void judge_step(const Fn<S> &f, const Mat<S> &from, const Mat<S> &to, const Mat<S> &grad, const Mat<S> &dir, S beta, S tau, S reported, const std::string &who) {
    S f0 = f.raw(from), f1 = f.raw(to);
    ld fs = std::max<ld>({fabsl(f0), fabsl(f1), 1e-30L});
    // rounding of the function and of its argument
    Mat<S> g1(from.rows(), from.cols());
    f.rawg(to, g1);
    ld px = std::max<ld>(from.cwiseAbs().maxCoeff(), to.cwiseAbs().maxCoeff()) * eps<S>();
    ld ftol = 2000 * (ld)eps<S>() * fs + 4 * px * ((ld)grad.cwiseAbs().sum() + (ld)g1.cwiseAbs().sum()) + 200 * px * px * from.size();
    VF_REQUIRE(reported == f1 || fabsl((ld)reported - f1) <= 8 * eps<S>() * fs, "returned-value", "%s: returns %.12g, but the value there is %.12g", who.c_str(), (double)reported, (double)f1);
    ld dec = 0, decs = 0;
    for (int i = 0; i < grad.size(); i++) { dec += (ld)grad.data()[i] * dir.data()[i]; decs += fabsl((ld)grad.data()[i] * dir.data()[i]); }
    dec *= beta;
    if ((to - from).cwiseAbs().maxCoeff() < 3e3 * px) {
        // a step of the size of the rounding of the position
        VF_REQUIRE((ld)f1 <= (ld)f0 + ftol, "worse", "%s: the value goes from %.12g to %.12g", who.c_str(), (double)f0, (double)f1);
        run().count("steps at the resolution of the position");
        return;
    }
    int n = find_step<S>(from, to, dir, tau);
    // steps far below the resolution of the position cannot be told apart
    VF_REQUIRE(n >= 0, "step-sequence", "%s: moves from %s to %s along %s, which is no power of %g", who.c_str(), show(from).c_str(), show(to).c_str(), show(dir).c_str(), (double)tau);
    ld a = powl(tau, n);
    VF_REQUIRE((ld)f1 <= (ld)f0 - a * dec + ftol + eps<S>() * 100 * a * beta * decs || to == from, "sufficient-decrease", "%s: step %Lg: %.12g > %.12g - %Lg", who.c_str(), a, (double)f1, (double)f0, a * dec);
    VF_REQUIRE((ld)f1 <= (ld)f0 + ftol, "worse", "%s: the value goes from %.12g to %.12g", who.c_str(), (double)f0, (double)f1);
    // the largest such step
    S b = 1;
    for (int m = 0; m < n && m < 60; m++, b *= tau) {
        Mat<S> x = from - b * dir;
        ld v = f.raw(x);
        if (m > 0 && m >= n - 1 && (x - to).cwiseAbs().maxCoeff() == 0) break;
        VF_REQUIRE(!(v < (ld)f0 - (ld)b * dec - ftol - eps<S>() * 1000 * fabsl(v)), "not-largest-step", "%s: takes step %d of the sequence although step %d satisfies the condition (%Lg <= %g - %Lg)", who.c_str(), n, m, v, (double)f0, (ld)b * dec);
    }
    run().count(n == 0 ? "full steps" : "backtracked steps");
    run().maximum("longest backtracking", n);
}

template <class S> void line_search(Rng &r) {
    Mat<S> x;
    auto f = gen_fn<S>(r, x);
    S beta = r.pick(std::vector<double>{0.001, 0.001, 0.1, 0.3}), tau = r.pick(std::vector<double>{0.5, 0.5, 0.1, 0.9, 0.3});
    bool defaults = beta == S(0.001) && tau == S(0.5);
    std::shared_ptr<LineSearch<Fn<S>, Mat<S>>> ls;
    if (defaults) ls = std::make_shared<ArmijoLineSearch<Fn<S>, Mat<S>>>();
    else ls = std::make_shared<ArmijoLineSearch<Fn<S>, Mat<S>>>(beta, tau);
    std::string who = fmt("%s function %d %dx%d beta=%g tau=%g", sname<S>(), f->type, (int)x.rows(), (int)x.cols(), (double)beta, (double)tau);
    int steps = r.uni(1, 5);
    for (int s = 0; s < steps; s++) {
        Mat<S> g(x.rows(), x.cols());
        f->rawg(x, g);
        Mat<S> dir = g;
        int dk = r.uni(0, 3);
        if (dk == 1) dir *= S(r.logreal(0.05, 20));
        if (dk == 2) for (int i = 0; i < dir.size(); i++) dir.data()[i] *= S(r.real(0.1, 2));    // another descent direction
        if (dk == 3 && dir.norm() > 0) dir /= dir.norm();
        if (!(dir.cwiseAbs().maxCoeff() < 1e6) || !std::isfinite(f->raw(x))) return;
        Mat<S> g0 = g, d0 = dir, to = x;
        S v = ls->search(*f, to, g, dir);
        VF_CHECK(same_bits(g, g0) && same_bits(dir, d0), "arguments-changed", "%s: the search changes the gradient or the direction", who.c_str());
        judge_step<S>(*f, x, to, g, dir, beta, tau, v, who);
        if (g.cwiseAbs().maxCoeff() == 0) run().count("searches at a stationary point");
        x = to;
    }
    // a constant step
    {
        S a = r.real(0.001, 1);
        ConstantLineSearch<Fn<S>, Mat<S>> c(a);
        Mat<S> g(x.rows(), x.cols());
        f->rawg(x, g);
        if (g.cwiseAbs().maxCoeff() < 1e6) {
            Mat<S> to = x, given = g;
            if (r.chance(0.7)) for (int i = 0; i < g.size(); i++) g.data()[i] *= S(r.real(-2, 2));   // any direction
            S v = c.search(*f, to, given, g);
            for (int i = 0; i < x.size(); i++)
                VF_REQUIRE(std::fabs((double)(to.data()[i] - (x.data()[i] - a * g.data()[i]))) <= 8 * eps<S>() * (std::fabs((double)x.data()[i]) + std::fabs((double)(a * g.data()[i]))), "constant-step", "%s: a constant step of %g", who.c_str(), (double)a);
            S e = f->raw(to);
            VF_CHECK(v == e || (std::isnan(v) && std::isnan(e)) || std::fabs(v - e) <= 8 * eps<S>() * std::fabs(e), "constant-value", "%s: returns %g, the value is %g", who.c_str(), (double)v, (double)e);
            run().count("constant steps");
        }
    }
    run().distinct(mix(hash_str(who) + val(x.sum() * 1e6)));
}

// ------------------------------------------------------------ descent

struct Call { double value, norm; size_t it; };

template <class S> void descent(Rng &r) {
    Mat<S> x0;
    auto f = gen_fn<S>(r, x0);
    if (!std::isfinite(f->raw(x0))) throw Skip();
    S beta = r.pick(std::vector<double>{0.001, 0.1}), tau = r.pick(std::vector<double>{0.5, 0.3});
    bool constant = r.chance(0.25);
    S alpha = r.real(0.001, 0.02);
    std::string who = fmt("%s function %d %dx%d %s", sname<S>(), f->type, (int)x0.rows(), (int)x0.cols(), constant ? "constant" : "armijo");
    auto go = [&](size_t limit, std::vector<Call> &calls) {
        std::shared_ptr<LineSearch<Fn<S>, Mat<S>>> ls;
        if (constant) ls = std::make_shared<ConstantLineSearch<Fn<S>, Mat<S>>>(alpha);
        else ls = std::make_shared<ArmijoLineSearch<Fn<S>, Mat<S>>>(beta, tau);
        GradientDescent<Fn<S>, Mat<S>> gd(ls, [&](S v, S n, size_t it) { calls.push_back({(double)v, (double)n, it}); return calls.size() <= limit; });
        Mat<S> x = x0;
        f->record = true;
        f->seen.clear();
        gd.minimize(*f, x);
        return x;
    };
    int T = r.uni(0, 8);
    std::vector<Call> all;
    std::vector<Mat<S>> pos;
    for (int t = 0; t <= T; t++) {
        std::vector<Call> calls;
        Mat<S> x = go(t, calls);
        if (!(x.cwiseAbs().maxCoeff() < 1e5)) return;
        VF_REQUIRE(calls.size() == (size_t)t + 1, "callbacks", "%s: %zu callbacks for %d iterations", who.c_str(), calls.size(), t);
        for (int i = 0; i <= t; i++) {
            VF_REQUIRE(calls[i].it == (size_t)i, "iteration-number", "%s: callback %d carries iteration %zu", who.c_str(), i, calls[i].it);
            if (i < t) VF_REQUIRE(calls[i].value == all[i].value && calls[i].norm == all[i].norm, "not-deterministic", "%s: callback %d differs between two runs", who.c_str(), i);
        }
        if (t == 0) VF_REQUIRE(x == x0, "moved", "%s: told to stop at once, but moves", who.c_str());
        all.push_back(calls.back());
        pos.push_back(x);
        // what the last callback said is about where it stopped
        S v = f->raw(x);
        Mat<S> g(x.rows(), x.cols());
        f->rawg(x, g);
        double n = g.cwiseAbs().maxCoeff();
        VF_REQUIRE(std::fabs(calls.back().value - v) <= 16 * eps<S>() * std::fabs((double)v) + 1e-300, "callback-value", "%s: callback %d reports %.12g, the value is %.12g", who.c_str(), t, calls.back().value, (double)v);
        VF_REQUIRE(std::fabs(calls.back().norm - n) <= 16 * eps<S>() * n + 1e-300, "callback-norm", "%s: callback %d reports gradient norm %.12g instead of %.12g", who.c_str(), t, calls.back().norm, n);
        run().count("callbacks compared");
        if (t > 0) {
            Mat<S> gp(x.rows(), x.cols());
            f->rawg(pos[t - 1], gp);
            // the gradient the library was given there (computed again it may differ by rounding,
            // which depends on the alignment of the memory)
            bool found = false;
            for (auto &q : f->seen) if (same_bits(q.first, pos[t - 1])) { gp = q.second; found = true; }
            VF_REQUIRE(found, "gradient-not-evaluated", "%s: iteration %d moves without evaluating the gradient where it is", who.c_str(), t);
            if (!constant) judge_step<S>(*f, pos[t - 1], x, gp, gp, beta, tau, v, who);
            else VF_REQUIRE(rel_diff(x, Mat<S>(pos[t - 1] - alpha * gp), 1e-3) <= 1000 * eps<S>(), "constant-step", "%s: iteration %d", who.c_str(), t);
        }
    }
    run().count("descents");
    run().distinct(mix(hash_str(who) + val(pos.back().sum() * 1e6)));
}

// hundreds of iterations: nobody but the callback ends them
template <class S> void long_descent(Rng &r) {
    Mat<S> x;
    auto f = gen_fn<S>(r, x);
    if (!std::isfinite(f->raw(x))) throw Skip();
    bool constant = r.chance(0.25);
    size_t T = r.pick(std::vector<int>{50, 100, 101, 200, 256, 300, 1000, r.uni(20, 400)});
    std::string who = fmt("%s function %d %dx%d %s %zu iterations", sname<S>(), f->type, (int)x.rows(), (int)x.cols(), constant ? "constant" : "armijo", T);
    std::shared_ptr<LineSearch<Fn<S>, Mat<S>>> ls;
    if (constant) ls = std::make_shared<ConstantLineSearch<Fn<S>, Mat<S>>>(S(r.real(1e-5, 1e-3)));
    else ls = std::make_shared<ArmijoLineSearch<Fn<S>, Mat<S>>>();
    std::vector<Call> calls;
    GradientDescent<Fn<S>, Mat<S>> gd(ls, [&](S v, S n, size_t it) { calls.push_back({(double)v, (double)n, it}); return calls.size() <= T; });
    gd.minimize(*f, x);
    if (!(x.cwiseAbs().maxCoeff() < 1e5)) return;
    VF_REQUIRE(calls.size() == T + 1, "callbacks", "%s: %zu callbacks", who.c_str(), calls.size());
    for (size_t i = 0; i <= T; i++) {
        VF_REQUIRE(calls[i].it == i, "iteration-number", "%s: callback %zu carries iteration %zu", who.c_str(), i, calls[i].it);
        if (i && !constant)
            VF_REQUIRE(calls[i].value <= calls[i - 1].value + 100 * eps<S>() * std::fabs(calls[i - 1].value), "worse", "%s: iteration %zu goes from %.12g to %.12g", who.c_str(), i, calls[i - 1].value, calls[i].value);
    }
    S v = f->raw(x);
    VF_REQUIRE(std::fabs(calls.back().value - v) <= 16 * eps<S>() * std::fabs((double)v) + 1e-300, "callback-value", "%s: the last callback reports %.12g, the value is %.12g", who.c_str(), calls.back().value, (double)v);
    run().count("iterations of long descents", T);
    run().distinct(mix(hash_str(who) + val(x.sum() * 1e6)));
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C21", {
        {"objective-double", 80000, 600000, objective<double>},
        {"objective-float", 40000, 300000, objective<float>},
        {"search-double", 80000, 600000, line_search<double>},
        {"search-float", 40000, 300000, line_search<float>},
        {"descent-double", 40000, 300000, descent<double>},
        {"descent-float", 20000, 150000, descent<float>},
        {"long-double", 400, 6000, long_descent<double>},
        {"long-float", 200, 3000, long_descent<float>},
    });
}
