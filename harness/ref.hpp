// Reference computations in extended precision, written from the models'
// equations.
#pragma once
#include "models.hpp"

namespace vf {

inline ld ref_digamma(ld x) {
    ld r = 0;
    while (x < 30) { r -= 1 / x; x += 1; }
    ld f = 1 / (x * x);
    return r + logl(x) - 0.5L / x - f * (1.0L / 12 - f * (1.0L / 120 - f * (1.0L / 252 - f * (1.0L / 240 - f * (1.0L / 132 - f * 691.0L / 32760)))));
}
inline ld ref_lgamma(ld x) { return lgammal(x); }

template <class D> LMat to_ld(const D &m) {
    LMat r(m.rows(), m.cols());
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) r(i, j) = m(i, j);
    return r;
}

inline ld logsumexp(const LVec &v) {
    ld m = v.maxCoeff();
    if (!std::isfinite((double)m)) return m;
    ld s = 0;
    for (int i = 0; i < v.rows(); i++) s += expl(v[i] - m);
    return m + logl(s);
}

// relative error bound of the table based exponential at x
inline ld exp_err(ld x) { return std::max<ld>(1, 2 * fabsl(x)) / 1024 * 1.02L; }

struct Elbo {
    ld value = 0;
    ld scale = 0;      // sum of the magnitudes of the terms
    ld table = 0;      // how far the table based exponential may move it
    void add(ld v) { value += v; scale += fabsl(v); }
};

// The evidence lower bound of unsupervised LDA; words count as often as they occur.
inline Elbo ref_unsupervised(const VectorXi &X, const LVec &alpha, const LMat &beta, const LMat &phi, const LVec &gamma) {
    Elbo e;
    int K = alpha.rows();
    ld pg = ref_digamma(gamma.sum());
    LVec t(K);
    for (int k = 0; k < K; k++) t[k] = ref_digamma(gamma[k]) - pg;
    e.add(ref_lgamma(alpha.sum()));
    e.add(-ref_lgamma(gamma.sum()));
    for (int k = 0; k < K; k++) {
        e.add(-ref_lgamma(alpha[k]));
        e.add((alpha[k] - 1) * t[k]);
        e.add(ref_lgamma(gamma[k]));
        e.add(-(gamma[k] - 1) * t[k]);
    }
    for (int n = 0; n < X.rows(); n++) {
        if (!X[n]) continue;
        for (int k = 0; k < K; k++) {
            ld w = X[n] * phi(k, n);
            if (w == 0) continue;
            e.add(w * t[k]);
            e.add(w * logl(beta(k, n) + 1e-44L));
            e.add(-w * logl(phi(k, n)));
        }
    }
    return e;
}

inline Elbo ref_supervised(const VectorXi &X, int y, const LVec &alpha, const LMat &beta, const LMat &eta, const LMat &phi,
                           const LVec &gamma) {
    Elbo e = ref_unsupervised(X, alpha, beta, phi, gamma);
    int K = alpha.rows(), C = eta.cols();
    ld N = X.sum();
    if (N == 0) {
        e.add(-logl(C));
        return e;
    }
    for (int n = 0; n < X.rows(); n++)
        for (int k = 0; k < K; k++) if (X[n]) e.add(eta(k, y) * phi(k, n) * X[n] / N);
    LVec lp = LVec::Zero(C);
    ld table = 0;
    for (int c = 0; c < C; c++) {
        ld te = 0;
        for (int n = 0; n < X.rows(); n++) {
            if (!X[n]) continue;
            ld s = 0, worst = 0;
            for (int k = 0; k < K; k++) {
                ld x = eta(k, c) * X[n] / N;
                s += phi(k, n) * expl(x);
                worst = std::max(worst, exp_err(x));
            }
            lp[c] += logl(s);
            te += worst;
        }
        table = std::max(table, te);
    }
    e.add(-logsumexp(lp));
    e.table = table;
    return e;
}

inline void add_eta_prior(Elbo &e, const LMat &eta, ld mu, ld portion) {
    int C = eta.cols();
    ld s = 0;
    for (int k = 0; k < eta.rows(); k++) for (int c = 0; c < C; c++) s += logl(eta(k, c));
    e.add(portion * (mu - 1) * s);
    e.add(portion * ref_lgamma(C * mu));
    e.add(-portion * C * ref_lgamma(mu));
}

inline Elbo ref_multinomial(const VectorXi &X, int y, const LVec &alpha, const LMat &beta, const LMat &eta, const LMat &phi,
                            const LVec &gamma, ld prior, ld mu, ld portion) {
    Elbo e = ref_unsupervised(X, alpha, beta, phi, gamma);
    for (int n = 0; n < X.rows(); n++)
        for (int k = 0; k < alpha.rows(); k++) if (X[n]) e.add(X[n] * phi(k, n) * logl(eta(k, y)));
    e.add(-((ld)X.sum() - 1) * logl(prior));
    add_eta_prior(e, eta, mu, portion);
    return e;
}

inline Elbo ref_correspondence(const VectorXi &X, int y, const LVec &alpha, const LMat &beta, const LMat &eta, const LMat &phi,
                               const LVec &gamma, const LVec &tau, ld mu, ld portion) {
    Elbo e = ref_unsupervised(X, alpha, beta, phi, gamma);
    for (int n = 0; n < X.rows(); n++) {
        if (!X[n]) continue;
        if (tau[n] > 0) e.add(-tau[n] * X[n] * logl(tau[n]));
        for (int k = 0; k < alpha.rows(); k++) e.add(X[n] * tau[n] * phi(k, n) * logl(eta(k, y)));
    }
    e.add(-logl(std::max(X.sum(), 1)));
    add_eta_prior(e, eta, mu, portion);
    return e;
}

// log probability of a document (as a sequence of words) by enumeration of all
// topic assignments
inline ld exact_log_prob(const VectorXi &X, const LVec &alpha, const LMat &beta) {
    std::vector<int> w;
    for (int n = 0; n < X.rows(); n++) for (int i = 0; i < X[n]; i++) w.push_back(n);
    int K = alpha.rows(), N = w.size();
    std::vector<int> cnt(K, 0);
    ld A = alpha.sum();
    // the assignments are exchangeable: sum over z sequentially
    std::function<ld(int)> rec = [&](int i) -> ld {
        if (i == N) return 1;
        ld s = 0;
        for (int k = 0; k < K; k++) {
            ld p = (alpha[k] + cnt[k]) / (A + i) * beta(k, w[i]);
            if (p == 0) continue;
            cnt[k]++;
            s += p * rec(i + 1);
            cnt[k]--;
        }
        return s;
    };
    return logl(rec(0));
}

// value of the regularised class weighted negative log likelihood
inline ld ref_logistic(const LMat &X, const VectorXi &y, const LVec &Cy, ld L, const LMat &eta, const std::vector<LMat> *var = nullptr) {
    ld v = 0;
    for (int d = 0; d < y.rows(); d++) {
        LVec t = eta.transpose() * X.col(d), u = t;
        if (var)
            for (int c = 0; c < t.rows(); c++) u[c] += logl(1 + 0.5L * (eta.col(c).transpose() * (*var)[d] * eta.col(c)).value());
        v += Cy[y[d]] * (logsumexp(u) - t[y[d]]);
    }
    return v + L * eta.squaredNorm() / 2;
}
inline LVec ref_class_weights(const VectorXi &y) {
    int C = y.maxCoeff() + 1;
    LVec n = LVec::Zero(C);
    for (int d = 0; d < y.rows(); d++) n[y[d]] += 1;
    LVec w(C);
    for (int c = 0; c < C; c++) w[c] = n[c] > 0 ? (ld)y.rows() / (C * n[c]) : 0;
    return w;
}
inline LMat ref_logistic_grad(const LMat &X, const VectorXi &y, const LVec &Cy, ld L, const LMat &eta, const std::vector<LMat> *var = nullptr) {
    LMat g = eta * L;
    int C = eta.cols();
    for (int d = 0; d < y.rows(); d++) {
        LVec t = eta.transpose() * X.col(d), u = t, f = LVec::Ones(C);
        if (var)
            for (int c = 0; c < C; c++) {
                f[c] = 1 + 0.5L * (eta.col(c).transpose() * (*var)[d] * eta.col(c)).value();
                u[c] += logl(f[c]);
            }
        ld z = logsumexp(u);
        for (int c = 0; c < C; c++) {
            ld p = expl(u[c] - z);
            g.col(c) += Cy[y[d]] * p * X.col(d);
            if (var) g.col(c) += Cy[y[d]] * (p / f[c]) * 0.5L * (((*var)[d] + (*var)[d].transpose()) * eta.col(c));
        }
        g.col(y[d]) -= Cy[y[d]] * X.col(d);
    }
    return g;
}

}  // namespace vf
