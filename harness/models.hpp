// Generators of corpora, models and configurations and factories of the E and
// M steps, shared by the monitors.
#pragma once
#include "common.hpp"

#include <Eigen/Core>

#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"

namespace vf {

using namespace ldaplusplus;
using Eigen::MatrixXi;
using Eigen::VectorXi;
template <class S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using Params = parameters::SupervisedModelParameters<S>;
template <class S> using PParams = std::shared_ptr<Params<S>>;
template <class S> using VP = parameters::VariationalParameters<S>;
template <class S> using CVP = parameters::SupervisedCorrespondenceVariationalParameters<S>;
typedef long double ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> LMat;
typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> LVec;

// ---------------------------------------------------------------- data

struct Data {
    MatrixXi X;    // words x documents
    VectorXi y;
    int V, D, C;
    std::string desc;
};

struct DataOpts {
    int minV = 1, maxV = 40, minD = 1, maxD = 30, minC = 1, maxC = 5;
    bool empty_docs = true, huge = true, unlabeled = false, unused_words = true;
};

// now and then sizes far from the usual ones
inline void outsize(Rng &r, DataOpts &o, double chance = 0.02, int V = 500, int D = 200, int C = 25) {
    if (!r.chance(chance)) return;
    int which = r.uni(0, 3);
    if (which == 0 || which == 3) o.maxV = std::max(o.maxV, which == 3 ? V / 4 : V);
    if (which == 1 || which == 3) { o.maxD = std::max(o.maxD, which == 3 ? D / 4 : D); o.minD = std::max(o.minD, o.maxD / 4); }
    if (which == 2) o.maxC = std::max(o.maxC, C);
    run().count("corpora of unusual sizes");
}

inline Data gen_data(Rng &r, DataOpts o = DataOpts()) {
    Data d;
    d.V = r.uni(o.minV, r.chance(0.3) ? std::min(o.maxV, o.minV + 3) : o.maxV);
    d.D = r.uni(o.minD, r.chance(0.2) ? std::min(o.maxD, o.minD + 2) : o.maxD);
    d.C = r.uni(o.minC, o.maxC);
    d.X = MatrixXi::Zero(d.V, d.D);
    d.y = VectorXi::Zero(d.D);
    double density = r.pick(std::vector<double>{0.03, 0.1, 0.3, 0.7, 1.0});
    int style = r.uni(0, 9);
    bool huge = o.huge && style == 9;
    int maxc = huge ? 2000000 : r.pick(std::vector<int>{1, 3, 10, 50});
    std::vector<bool> used(d.V, true);
    if (o.unused_words && r.chance(0.3))
        for (int w = 0; w < d.V; w++) used[w] = !r.chance(0.3);
    int empties = 0;
    for (int i = 0; i < d.D; i++) {
        if (o.empty_docs && r.chance(style == 8 ? 0.5 : 0.05)) { empties++; }
        else if (r.chance(0.1)) {   // a single word
            d.X(r.uni(0, d.V - 1), i) = r.uni(1, maxc);
        } else if (i > 0 && r.chance(0.05)) {   // a duplicate
            d.X.col(i) = d.X.col(r.uni(0, i - 1));
        } else {
            for (int w = 0; w < d.V; w++)
                if (used[w] && r.chance(density)) d.X(w, i) = r.uni(1, maxc);
            if (!o.empty_docs && d.X.col(i).sum() == 0) d.X(r.uni(0, d.V - 1), i) = r.uni(1, maxc);
        }
        if (!o.empty_docs && d.X.col(i).sum() == 0) d.X(0, i) = 1;
    }
    // labels: all classes, one class only, a missing class, very unbalanced
    int lab = r.uni(0, 4);
    int missing = r.uni(0, d.C - 1);
    for (int i = 0; i < d.D; i++) {
        int c = r.uni(0, d.C - 1);
        if (lab == 1) c = missing;
        if (lab == 2 && c == missing) c = (c + 1) % d.C;
        if (lab == 3 && !r.chance(0.1)) c = 0;
        d.y[i] = c;
    }
    int unl = 0;
    if (o.unlabeled) {
        double p = r.pick(std::vector<double>{0, 0.2, 0.6, 0.95, 1});
        for (int i = 0; i < d.D; i++) if (r.chance(p)) { d.y[i] = -r.uni(1, 3); unl++; }
    }
    d.desc = fmt("V=%d D=%d C=%d density=%g maxcount=%d empty=%d labels=%d unlabeled=%d", d.V, d.D, d.C, density, maxc,
                 empties, lab, unl);
    return d;
}

// a single document
inline VectorXi gen_doc(Rng &r, int V, int maxc = 20, double density = -1) {
    if (density < 0) density = r.pick(std::vector<double>{0.1, 0.5, 1.0});
    VectorXi x = VectorXi::Zero(V);
    for (int w = 0; w < V; w++) if (r.chance(density)) x[w] = r.uni(1, maxc);
    if (x.sum() == 0) x[r.uni(0, V - 1)] = r.uni(1, maxc);
    return x;
}

enum Kind { UNSUP, SLDA, FSLDA, SEMI, MULTI, CORR, ONLINE, NKINDS };
inline const char *kind_name(int k) {
    static const char *n[] = {"unsupervised", "supervised", "fast-supervised", "semi-supervised", "multinomial",
                              "correspondence", "online"};
    return n[k];
}
inline bool class_distribution(int k) { return k == MULTI || k == CORR; }

struct Cfg {
    Kind kind = UNSUP;
    size_t e_iters = 10, fp_iters = 10, m_iters = 10, minibatch = 128;
    double e_tol = 1e-2, C = 1, mu = 2, eta_weight = 1, cl = 1, m_tol = 1e-2, L = 1e-2;
    double momentum = 0.9, lr = 0.01, beta_weight = 0.9;
    bool decay = false;
    int rs = 0;
    std::vector<double> class_weights;   // online only; empty: all one
    std::string str() const {
        return fmt("%s e(%zu,%g,fp=%zu) C=%g%s mu=%g w=%g cl=%g m(%zu,%g,L=%g) mb=%zu mom=%g lr=%g bw=%g", kind_name(kind),
                   e_iters, e_tol, fp_iters, C, decay ? "^t" : "", mu, eta_weight, cl, m_iters, m_tol, L, minibatch, momentum,
                   lr, beta_weight);
    }
};

inline Cfg gen_cfg(Rng &r, Kind k) {
    Cfg c;
    c.kind = k;
    c.e_iters = r.uni(1, 15);
    c.e_tol = r.pick(std::vector<double>{0, 1e-6, 1e-3, 1e-2, 0.5});
    c.fp_iters = r.uni(1, 6);
    c.C = r.pick(std::vector<double>{0, 0.3, 1, 1, 5});
    c.decay = r.chance(0.3);
    c.mu = r.real(1.01, 4);
    c.eta_weight = r.pick(std::vector<double>{0, 0.5, 1, 1, 3});
    c.m_iters = r.uni(0, 8);
    c.m_tol = r.pick(std::vector<double>{-1, 1e-4, 1e-2});
    c.L = r.pick(std::vector<double>{0, 1e-3, 1e-2, 0.1, 1});
    c.minibatch = r.uni(1, 12);
    c.momentum = r.pick(std::vector<double>{0, 0.5, 0.9});
    c.lr = r.pick(std::vector<double>{0.001, 0.01, 0.1});
    c.beta_weight = r.pick(std::vector<double>{0, 0.5, 0.9, 0.99});
    c.rs = r.uni(0, 1000);
    return c;
}

template <class S> std::shared_ptr<em::EStepInterface<S>> make_e(const Cfg &c) {
    typedef typename em::FastSupervisedEStep<S>::CWeightType W;
    W w = c.decay ? em::FastSupervisedEStep<S>::ExponentialDecay : em::FastSupervisedEStep<S>::Constant;
    switch (c.kind) {
        case UNSUP: return std::make_shared<em::UnsupervisedEStep<S>>(c.e_iters, c.e_tol, c.cl, c.rs);
        case SLDA: return std::make_shared<em::SupervisedEStep<S>>(c.e_iters, c.e_tol, c.fp_iters, c.cl, c.rs);
        case FSLDA:
        case ONLINE: return std::make_shared<em::FastSupervisedEStep<S>>(c.e_iters, c.e_tol, c.C, w, c.cl, c.rs);
        case SEMI:
            return std::make_shared<em::SemiSupervisedEStep<S>>(
                std::make_shared<em::FastSupervisedEStep<S>>(c.e_iters, c.e_tol, c.C, w, c.cl, c.rs),
                std::make_shared<em::UnsupervisedEStep<S>>(c.e_iters, c.e_tol, c.cl, c.rs));
        case MULTI:
            return std::make_shared<em::MultinomialSupervisedEStep<S>>(c.e_iters, c.e_tol, c.mu, c.eta_weight, c.cl, c.rs);
        case CORR: return std::make_shared<em::CorrespondenceSupervisedEStep<S>>(c.e_iters, c.e_tol, c.mu, c.cl, c.rs);
        default: abort();
    }
}

template <class S> std::shared_ptr<em::MStepInterface<S>> make_m(const Cfg &c, int classes) {
    switch (c.kind) {
        case UNSUP: return std::make_shared<em::UnsupervisedMStep<S>>();
        case SLDA: return std::make_shared<em::SupervisedMStep<S>>(c.m_iters, c.m_tol, c.L);
        case FSLDA: return std::make_shared<em::FastSupervisedMStep<S>>(c.m_iters, c.m_tol, c.L);
        case SEMI: return std::make_shared<em::SemiSupervisedMStep<S>>(c.m_iters, c.m_tol, c.L);
        case MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S>>(c.mu);
        case CORR: return std::make_shared<em::CorrespondenceSupervisedMStep<S>>(c.mu);
        case ONLINE: {
            if (c.class_weights.empty())
                return std::make_shared<em::FastOnlineSupervisedMStep<S>>(static_cast<size_t>(classes), c.L, c.minibatch,
                                                                         c.momentum, c.lr, c.beta_weight);
            Vec<S> w(c.class_weights.size());
            for (size_t i = 0; i < c.class_weights.size(); i++) w[i] = c.class_weights[i];
            return std::make_shared<em::FastOnlineSupervisedMStep<S>>(w, c.L, c.minibatch, c.momentum, c.lr, c.beta_weight);
        }
        default: abort();
    }
}

// The domain of a known finding of C06: the rounding of a document's number of
// words in single precision, over the updates of an inference, reaches the prior.
template <class S> bool cancels(double words, const Vec<S> &alpha) {
    return sizeof(S) == 4 && words * 16 * std::numeric_limits<float>::epsilon() > (double)alpha.minCoeff();
}

struct ParamOpts {
    double zero_words = 0;      // probability that no topic knows a word
    double zero_entries = 0;    // probability of a zero in beta
    double eta_scale = 1.5;
    bool uniform_alpha = false;
    double min_alpha = 0.01, max_alpha = 4;
};

template <class S> PParams<S> gen_params(Rng &r, Kind kind, int K, int V, int C, ParamOpts o = ParamOpts()) {
    auto p = std::make_shared<Params<S>>();
    p->alpha = Vec<S>::Constant(K, 1.0 / K);
    if (!o.uniform_alpha && r.chance(0.6))
        for (int k = 0; k < K; k++) p->alpha[k] = r.logreal(o.min_alpha, o.max_alpha);
    p->beta = Mat<S>::Zero(K, V);
    double sharp = r.pick(std::vector<double>{0.2, 1, 3});
    for (int w = 0; w < V; w++) {
        bool none = V > 1 && r.chance(o.zero_words);
        for (int k = 0; k < K; k++)
            p->beta(k, w) = none || (K * V > 1 && r.chance(o.zero_entries)) ? 0 : std::pow(r.real(1e-3, 1), sharp);
    }
    for (int k = 0; k < K; k++) {
        S s = p->beta.row(k).sum();
        if (s > 0) p->beta.row(k) /= s;
    }
    p->eta = Mat<S>::Zero(K, C);
    if (class_distribution(kind)) {
        for (int k = 0; k < K; k++) {
            for (int c = 0; c < C; c++) p->eta(k, c) = r.real(0.02, 1);
            p->eta.row(k) /= p->eta.row(k).sum();
        }
    } else if (!r.chance(0.15)) {
        double sc = o.eta_scale * r.pick(std::vector<double>{0.1, 1, 1});
        for (int k = 0; k < K; k++)
            for (int c = 0; c < C; c++) p->eta(k, c) = sc * std::max(-3.0, std::min(3.0, r.normal()));
    }
    return p;
}

template <class S> PParams<S> clone(const Params<S> &p) { return std::make_shared<Params<S>>(p); }

template <class A, class B> bool same_bits(const A &a, const B &b) {
    return a.rows() == b.rows() && a.cols() == b.cols() &&
           (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(typename A::Scalar) * a.size()) == 0);
}
template <class S> bool same_params(const Params<S> &a, const Params<S> &b) {
    return same_bits(a.alpha, b.alpha) && same_bits(a.beta, b.beta) && same_bits(a.eta, b.eta);
}

template <class M> bool all_finite(const M &m) {
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) if (!std::isfinite(m(i, j))) return false;
    return true;
}

// largest |a-b| / (abs + |b|); infinity if shapes differ or one has a NaN the
// other has not
template <class A, class B> double rel_diff(const A &a, const B &b, double abs = 1.0) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
    double worst = 0;
    for (int j = 0; j < a.cols(); j++)
        for (int i = 0; i < a.rows(); i++) {
            double x = a(i, j), z = b(i, j);
            if (std::isnan(x) && std::isnan(z)) continue;
            if (x == z) continue;
            double e = std::fabs(x - z) / (abs + std::fabs(z));
            if (!(e <= worst)) worst = std::isnan(e) ? INFINITY : e;
        }
    return worst;
}

template <class S> constexpr double eps() { return std::numeric_limits<S>::epsilon(); }
template <class S> const char *sname() { return sizeof(S) == 4 ? "float" : "double"; }

template <class M> std::string show(const M &m) {
    std::ostringstream o;
    o.precision(9);
    o << "[";
    for (int j = 0; j < m.cols() && j < 12; j++) {
        if (j) o << "; ";
        for (int i = 0; i < m.rows() && i < 12; i++) o << (i ? " " : "") << m(i, j);
    }
    o << "]";
    return o.str();
}

// A document that belongs to a corpus of known size and priors, which some E
// steps ask for.
class StubCorpus : public corpus::ClassificationCorpus {
  public:
    StubCorpus(size_t n, std::vector<float> priors) : n_(n), priors_(priors) {}
    size_t size() const override { return n_; }
    const std::shared_ptr<corpus::Document> at(size_t) const override { return nullptr; }
    void shuffle() override {}
    float get_prior(int y) const override { return y >= 0 && y < (int)priors_.size() ? priors_[y] : 0; }

  private:
    size_t n_;
    std::vector<float> priors_;
};

inline std::shared_ptr<corpus::Document> make_doc(const VectorXi &x, int y,
                                                  std::shared_ptr<const corpus::Corpus> c = nullptr) {
    return std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(x, c), y);
}

}  // namespace vf
