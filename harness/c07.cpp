// C07: every iteration of inference performs the update equations of its model
// (relative to the state before it, in extended precision), and inference stops
// where the stopping rule says.
#include "ref.hpp"

using namespace vf;

namespace {

template <class S> struct State {
    Mat<S> phi;
    Vec<S> gamma, tau;
};

template <class S> State<S> infer(const Cfg &cfg, std::shared_ptr<corpus::Document> doc, PParams<S> p, int epochs) {
    auto e = make_e<S>(cfg);
    for (int i = 0; i < epochs; i++) e->e_step();
    auto vp = std::static_pointer_cast<VP<S>>(e->doc_e_step(doc, p));
    State<S> s;
    s.phi = vp->phi;
    s.gamma = vp->gamma;
    if (cfg.kind == CORR) s.tau = std::static_pointer_cast<CVP<S>>(std::static_pointer_cast<parameters::Parameters>(vp))->tau;
    return s;
}

// unnormalised log weights of the topics of one word and how far each may be off
struct Logits {
    LVec x, err;
};

// err: the exponential may or may not be taken relative to the largest argument
void table_error(Logits &l, const LVec &x) {
    ld m = x.maxCoeff();
    for (int k = 0; k < x.rows(); k++) l.err[k] += std::max(exp_err(x[k]), exp_err(x[k] - m));
}

// compares a column with the softmax of (log base + x)
bool compare(const LVec &got, const LVec &base, const Logits &l, ld tiny, std::string *why, double *used) {
    int K = got.rows();
    LVec a(K);
    for (int k = 0; k < K; k++) a[k] = base[k] > 0 ? logl(base[k]) + l.x[k] : -INFINITY;
    ld z = logsumexp(a);
    if (!std::isfinite((double)z)) return true;
    ld common = 0;
    for (int k = 0; k < K; k++) if (base[k] > 0) common += expl(a[k] - z) * l.err[k];
    for (int k = 0; k < K; k++) {
        ld want = base[k] > 0 ? expl(a[k] - z) : 0;
        ld tol = want * expm1l(1.1L * (l.err[k] + common)) + tiny;
        if (want > 100 * tiny) *used = std::max(*used, (double)(fabsl(got[k] - want) / tol));
        if (!(fabsl(got[k] - want) <= tol)) {
            *why = fmt("topic %d is %.9Lg, the update gives %.9Lg (allowed difference %.3Lg)", k, got[k], want, tol);
            return false;
        }
    }
    return true;
}

// one sweep of the supervised E step (Wang, Blei, Li 2009), exact up to `noise`
void slda_sweep(Rng *noise, const VectorXi &X, int y, const LMat &beta, const LMat &eta, size_t fp, LMat &phi, LVec &gamma) {
    int K = eta.rows(), C = eta.cols(), V = X.rows();
    ld N = std::max(X.sum(), 1);
    auto ex = [&](ld x) { return expl(x) * (noise ? 1 + exp_err(x) * (2 * noise->real() - 1) : 1); };
    auto expeta = [&](int n) {
        LMat m(K, C);
        for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) m(k, c) = ex(eta(k, c) * X[n] / N);
        return m;
    };
    LVec prod = LVec::Ones(C);
    std::vector<LMat> E(V);
    for (int n = 0; n < V; n++) if (X[n]) {
        E[n] = expeta(n);
        prod.array() *= (E[n].transpose() * phi.col(n)).array();
    }
    for (int n = 0; n < V; n++) {
        if (!X[n]) continue;
        LVec mine = E[n].transpose() * phi.col(n);
        LVec h = E[n] * (prod.array() / mine.array()).matrix();
        LVec old = phi.col(n);
        for (size_t i = 0; i < fp; i++) {
            ld t = 1 / h.dot(phi.col(n)) / X[n];
            LVec x(K);
            for (int k = 0; k < K; k++) x[k] = ref_digamma(gamma[k]) + eta(k, y) * X[n] / N - h[k] * t;
            // the largest argument may or may not be subtracted
            ld m = noise && noise->chance(0.5) ? x.maxCoeff() : 0;
            for (int k = 0; k < K; k++) phi(k, n) = beta(k, n) * ex(x[k] - m);
            phi.col(n) /= phi.col(n).sum();
        }
        prod.array() = prod.array() / mine.array() * (E[n].transpose() * phi.col(n)).array();
        gamma += (ld)X[n] * (phi.col(n) - old);
    }
}

template <class S> void one(Rng &r, Kind kind) {
    bool slda = kind == SLDA;
    int V = r.uni(1, slda ? 10 : 16), K = r.uni(1, slda ? 5 : 8), C = r.uni(1, 5), T = r.uni(1, 8);
    if (r.chance(slda ? 0.03 : 0.04)) { V = r.uni(17, slda ? 150 : 700); T = r.uni(1, 3); run().count("large vocabularies"); }
    if (!slda && sizeof(S) == 8 && r.chance(0.0025)) {
        V = instrumented || kind == CORR ? r.uni(4097, 5000) : r.pick(std::vector<int>{r.uni(4097, 5000), r.uni(32768, 40000), r.uni(65537, 70000)});
        K = r.uni(1, 3);
        T = 1;
        run().count("vocabularies of thousands of words");
    } else if (r.chance(0.03)) { K = r.uni(9, slda ? 20 : 120); T = r.uni(1, 3); run().count("many topics"); }
    if (r.chance(0.03)) C = r.uni(6, 30);
    VectorXi x = gen_doc(r, V, r.pick(std::vector<int>{1, 5, 40}));
    if (r.chance(0.03)) x.setZero();
    if (r.chance(0.04) && !(slda && sizeof(S) == 4)) {   // words that occur very often (single precision: a known finding of C06)
        int most = std::min(r.pick(std::vector<int>{300, 70000, 3000000}), 2000000000 / V);
        for (int n = 0; n < V; n++) if (x[n] && r.chance(0.5)) x[n] = r.uni(most / 2, most);
        run().count("documents with very frequent words");
    }
    int N = x.sum();
    int y = kind == SEMI && r.chance(0.4) ? -1 : r.uni(0, C - 1);
    ParamOpts po;
    po.zero_entries = slda ? 0 : r.pick(std::vector<double>{0, 0.2});
    po.eta_scale = slda ? 0.6 : 1.0;
    po.min_alpha = 0.05;
    auto p = gen_params<S>(r, kind, K, V, C, po);
    if (r.chance(0.15)) p->eta = p->eta.array().abs().matrix();
    if ((kind == FSLDA || kind == SEMI) && r.chance(0.2)) p->eta = -p->eta.array().abs().matrix();
    // words that no topic likes, classes that some topics all but rule out
    bool faint = r.chance(0.15);
    if (faint)
        for (int n = 0; n < V; n++)
            if (r.chance(0.4)) p->beta.col(n) *= S(std::pow(10.0, -r.real(3, sizeof(S) == 4 ? 8 : 45)));
    bool ruled_out = class_distribution(kind) && r.chance(0.15);
    if (ruled_out)
        for (int k = 0; k < K; k++) {
            for (int c = 0; c < C; c++) if (r.chance(0.4)) p->eta(k, c) *= S(std::pow(10.0, -r.real(2, sizeof(S) == 4 ? 6 : 14)));
            p->eta.row(k) /= p->eta.row(k).sum();
        }
    if (faint) run().count("models with faint words");
    if (ruled_out) run().count("models with all but impossible classes");
    Cfg cfg = gen_cfg(r, kind);
    cfg.e_tol = 0;
    cfg.cl = 0;
    cfg.fp_iters = r.chance(0.06) ? r.uni(5, 40) : r.uni(1, 4);
    int epochs = r.chance(0.5) ? 0 : r.uni(1, r.chance(0.1) ? 60 : 4);
    if (cfg.decay && epochs > 4 && r.chance(0.6)) cfg.C = r.real(0.9, 1.05);
    if ((kind == FSLDA || kind == SEMI) && r.chance(0.01)) {   // a long training
        epochs = r.pick(std::vector<int>{100, 128, 200, 256, 300, 1000});
        cfg.decay = true;
        cfg.C = std::exp(r.real(0.5, 3) / epochs * (r.chance(0.5) ? 1 : -1));
        run().count("inferences late in a long training");
    }
    if (cfg.decay && std::pow(cfg.C, epochs) > 1e4) epochs = 3;
    std::vector<float> pri(C, 1.0f / C);
    auto corpus = std::make_shared<StubCorpus>(r.uni(1, 50), pri);
    auto doc = make_doc(x, y, corpus);
    std::string who = fmt("%s %s K=%d V=%d N=%d class %d of %d after %d epochs", sname<S>(), cfg.str().c_str(), K, V, N, y, C, epochs);

    std::vector<State<S>> st;
    for (int t = 0; t <= T; t++) {
        Cfg c = cfg;
        c.e_iters = t;
        st.push_back(infer<S>(c, doc, p, epochs));
    }
    LMat beta = to_ld(p->beta), eta = to_ld(p->eta);
    LVec alpha = to_ld(p->alpha);
    double rt = 40 * eps<S>();
    // the start
    for (int k = 0; k < K; k++) {
        VF_REQUIRE(std::fabs(st[0].gamma[k] - (double)(alpha[k] + (ld)N / K)) <= rt * (N + alpha[k]), "start", "%s: gamma starts at %s", who.c_str(), show(st[0].gamma).c_str());
        for (int n = 0; n < V; n++)
            VF_REQUIRE(std::fabs(st[0].phi(k, n) - 1.0 / K) <= rt, "start", "%s: phi starts at %s", who.c_str(), show(st[0].phi).c_str());
    }
    double used = 0, dig = sizeof(S) == 4 ? 3e-5 : 2e-6;
    ld tiny = sizeof(S) == 4 ? 1e-12L : 1e-40L;
    ld weight = cfg.decay ? powl(cfg.C, epochs) : cfg.C;
    int steps = 0;
    for (int t = 0; t < T; t++) {
        const State<S> &a = st[t], &b = st[t + 1];
        LMat phi = to_ld(a.phi), phi2 = to_ld(b.phi);
        LVec gamma = to_ld(a.gamma), tau = to_ld(a.tau);
        if (!all_finite(phi2)) { run().fail("not-finite", who + ": phi " + show(b.phi)); return; }
        if (slda) {
            // the exact sweep, and how much the error of the exponential matters here
            LMat want = phi;
            LVec wg = gamma;
            slda_sweep(nullptr, x, y, beta, eta, cfg.fp_iters, want, wg);
            ld spread = 0;
            for (int j = 0; j < 8; j++) {
                LMat q = phi;
                LVec g = gamma;
                slda_sweep(&r, x, y, beta, eta, cfg.fp_iters, q, g);
                spread = std::max(spread, (q - want).cwiseAbs().maxCoeff());
            }
            ld tol = 4 * spread + (sizeof(S) == 4 ? 0.004L : 0.002L);
            if (tol > 0.15L) { run().count("sensitive sweeps left out"); continue; }
            for (int n = 0; n < V; n++) {
                if (!x[n]) continue;
                ld d = (phi2.col(n) - want.col(n)).cwiseAbs().maxCoeff();
                used = std::max(used, (double)(d / tol));
                VF_REQUIRE(d <= tol, "update", "%s: iteration %d moves the assignment of word %d to %s, the update gives %s (allowed %.3Lg)", who.c_str(), t + 1, n,
                           show(LVec(phi2.col(n))).c_str(), show(LVec(want.col(n))).c_str(), tol);
            }
            steps++;
        } else {
            LVec psi(K), zero = LVec::Zero(K);
            for (int k = 0; k < K; k++) psi[k] = ref_digamma(gamma[k]);
            bool sup = (kind == FSLDA || kind == SEMI) && y >= 0;
            Logits l{psi, LVec::Zero(K)};
            for (int k = 0; k < K; k++) l.err[k] = dig * (1 + fabsl(psi[k]));
            if (sup) {
                if (N == 0) {   // nothing to infer from: the assignments stay
                    VF_REQUIRE(rel_diff(phi2, phi, 1) < 1e-12, "update", "%s: the assignments of an empty document change", who.c_str());
                    steps++;
                    continue;
                }
                LVec z = LVec::Zero(K);
                for (int n = 0; n < V; n++) if (x[n]) z += phi.col(n) * ((ld)x[n] / N);
                LVec u = eta.transpose() * z;
                ld lz = logsumexp(u), serr = 0;
                LVec sm(C);
                for (int c = 0; c < C; c++) { sm[c] = expl(u[c] - lz); serr = std::max(serr, std::max(exp_err(u[c]), exp_err(u[c] - u.maxCoeff()))); }
                ld mx = eta.maxCoeff();
                LMat es = mx > 0 ? LMat(eta / mx) : eta;
                LVec d = weight * (es.col(y) - es * sm);
                for (int k = 0; k < K; k++) {
                    l.x[k] += d[k];
                    l.err[k] += weight * ((es.row(k).cwiseAbs() * sm).value() * 2.2L * serr + es.row(k).cwiseAbs().maxCoeff() * 20 * eps<S>());
                }
            }
            if (kind == MULTI)
                for (int k = 0; k < K; k++) l.x[k] += cfg.eta_weight * logl(eta(k, y));
            table_error(l, l.x);
            for (int n = 0; n < V; n++) {
                if (beta.col(n).sum() == 0) continue;
                Logits w = l;
                if (kind == CORR) {
                    LVec q(K);
                    for (int k = 0; k < K; k++) q[k] = tau[n] * logl(eta(k, y));
                    table_error(w, q);
                    w.x += q;
                    table_error(w, w.x);
                }
                if (w.err.maxCoeff() > 0.4L || w.x.maxCoeff() - w.x.minCoeff() > (sizeof(S) == 4 ? 60 : 500)) { run().count("words left out: error bound of the exponential too wide"); continue; }
                std::string why;
                bool ok = compare(phi2.col(n), beta.col(n), w, tiny, &why, &used);
                VF_REQUIRE(ok, "update", "%s: iteration %d, word %d: %s", who.c_str(), t + 1, n, why.c_str());
                run().count("word updates compared");
            }
            if (kind == CORR) {
                LVec q(V);
                for (int n = 0; n < V; n++) {
                    q[n] = 0;
                    for (int k = 0; k < K; k++) q[n] += phi2(k, n) * logl(eta(k, y));
                }
                Logits w{q, LVec::Constant(V, 100 * eps<S>())};
                table_error(w, q);
                std::string why;
                bool ok = compare(to_ld(b.tau), LVec::Ones(V), w, tiny, &why, &used);
                VF_REQUIRE(ok, "update-tau", "%s: iteration %d, label weights: word instead of topic: %s", who.c_str(), t + 1, why.c_str());
            }
            steps++;
        }
        for (int k = 0; k < K; k++) {
            ld g = alpha[k];
            for (int n = 0; n < V; n++) if (x[n]) g += x[n] * phi2(k, n);
            VF_REQUIRE(fabsl(g - b.gamma[k]) <= rt * 4 * (N + g), "update-gamma", "%s: iteration %d: gamma[%d] is %.9g, the update gives %.9Lg", who.c_str(), t + 1, k, (double)b.gamma[k], g);
        }
    }
    run().count("iterations compared", steps);
    run().maximum("fraction of the allowed difference used", used);

    // the stopping rule
    std::vector<double> change;
    for (int t = 0; t <= T; t++) {
        double m = 0;
        for (int k = 0; k < K; k++) m += std::fabs((double)st[t].gamma[k] - (t ? (double)st[t - 1].gamma[k] : 0.0));
        change.push_back(m / K);
    }
    for (int j = 0; j < 3; j++) {
        double tol = change[r.uni(0, T)] * r.pick(std::vector<double>{0.5, 0.9, 1.1, 2});
        if (!(tol > 1e-12)) tol = 1e-12;
        bool borderline = false;
        for (double c : change) borderline |= std::fabs(c / tol - 1) < (sizeof(S) == 4 ? 1e-2 : 1e-5);
        if (sizeof(S) == 4 && tol < 1e-4 * (1 + N)) borderline = true;   // rounding decides
        if (tol < 1e-10 * (1 + N)) borderline = true;
        if (borderline) continue;
        int stop = 0;
        while (stop < T && !(change[stop] < tol)) stop++;
        Cfg c = cfg;
        c.e_iters = T;
        c.e_tol = tol;
        auto got = infer<S>(c, doc, p, epochs);
        VF_CHECK(rel_diff(got.gamma, st[stop].gamma, 1e-3) < rt && rel_diff(got.phi, st[stop].phi, 1e-3) < rt, "stopping", "%s: with tolerance %.9g the result is not the one after %d iterations (mean changes: %s)",
                 who.c_str(), tol, stop, show(Eigen::Map<Eigen::VectorXd>(change.data(), change.size())).c_str());
        run().count(stop < T ? "early stops" : "full runs");
    }
    run().distinct(mix(hash_str(who) + st[T].gamma.sum() * 1e6));
    run().sample(who);
}

// Hundreds of iterations: two topics that give every word of the document
// probabilities a little apart. The odds of the better one grow by their ratio
// in every iteration, so that each iteration shows in the result long after a
// usual document has converged.
template <class S> void slow_convergence(Rng &r, Kind kind) {
    int C = r.uni(1, 3), T = r.pick(std::vector<int>{20, 40, 100, 101, 128, 140, 200}), K = 2;
    double ratio = 1 + r.real(0.8, 0.95) / std::max(T, 100);       // odds stay below e
    double err = 0.0013;    // the exponential of differences below one is off by less than a thousandth
    int used = r.uni(1, 2);
    if (kind == SLDA) {
        // takes the exponential of the digamma itself, and the words one after the other
        T = r.pick(std::vector<int>{15, 25, 32, 40});
        ratio = r.real(1.07, 1.08);
        err = 0.04;
        used = 1;
    }
    int V = used + 1;
    auto p = std::make_shared<Params<S>>();
    p->alpha = Vec<S>::Constant(K, r.real(0.05, 1));
    p->beta = Mat<S>::Zero(K, V);
    for (int n = 0; n < used; n++) { p->beta(0, n) = 0.3 / ratio; p->beta(1, n) = 0.3; }
    p->beta(0, used) = 1 - p->beta.row(0).sum();
    p->beta(1, used) = 1 - p->beta.row(1).sum();
    // classes that say nothing about topics
    p->eta = class_distribution(kind) ? Mat<S>::Constant(K, C, S(1.0 / C)) : Mat<S>::Constant(K, C, S(r.chance(0.5) ? 0 : 0.25));
    if (kind == SLDA) p->eta.setZero();
    VectorXi x = VectorXi::Zero(V);
    for (int n = 0; n < used; n++) x[n] = r.uni(2000, 9000);
    int N = x.sum();
    Cfg cfg = gen_cfg(r, kind);
    cfg.e_tol = 0;
    cfg.cl = 0;
    cfg.decay = false;
    std::vector<float> pri(C, 1.0f / C);
    auto doc = make_doc(x, kind == SEMI && r.chance(0.5) ? -1 : r.uni(0, C - 1), std::make_shared<StubCorpus>(3, pri));
    std::string who = fmt("%s %s two topics a factor %.6g apart, %d words", sname<S>(), cfg.str().c_str(), ratio, N);
    std::vector<State<S>> st;
    std::vector<double> change;
    for (int t = 0; t <= T; t++) {
        Cfg c = cfg;
        c.e_iters = t;
        st.push_back(infer<S>(c, doc, p, 0));
        double m = 0;
        for (int k = 0; k < K; k++) m += std::fabs((double)st[t].gamma[k] - (t ? (double)st[t - 1].gamma[k] : 0.0));
        change.push_back(m / K);
        double lr = std::log((double)(st[t].gamma[1] / st[t].gamma[0]));
        double lo = t * (std::log(ratio) - err) - 0.001, hi = t * (std::log(ratio) + err) + 0.001;
        VF_REQUIRE(lr >= lo && lr <= hi, "iterations", "%s: after %d iterations the log odds are %.6g instead of %.6g", who.c_str(), t, lr, t * std::log(ratio));
    }
    run().count("slowly converging iterations", T);
    for (int j = 0; j < 3; j++) {
        double tol = change[r.uni(0, T)] * r.pick(std::vector<double>{0.97, 0.99, 1.01, 1.03});
        bool borderline = false;
        for (double c : change) borderline |= std::fabs(c / tol - 1) < (sizeof(S) == 4 ? 1e-2 : 1e-5);
        if (sizeof(S) == 4 && tol < 1e-4 * (1 + N)) borderline = true;
        if (borderline) continue;
        int stop = 0;
        while (stop < T && !(change[stop] < tol)) stop++;
        Cfg c = cfg;
        c.e_iters = T;
        c.e_tol = tol;
        auto got = infer<S>(c, doc, p, 0);
        VF_CHECK(rel_diff(got.gamma, st[stop].gamma, 1e-3) < 40 * eps<S>(), "stopping", "%s: with tolerance %.9g the result is not the one after %d iterations", who.c_str(), tol, stop);
        run().count(stop < T ? "early stops" : "full runs");
        if (stop > 20 && stop < T) run().count("early stops after more than 20 iterations");
    }
    run().distinct(mix(hash_str(who) + N));
    run().sample(who);
}

// In a training the inference of every epoch is the one of a step of that age.
template <class S> class KeepM : public em::MStepInterface<S> {
  public:
    void m_step(std::shared_ptr<parameters::Parameters>) override { epoch++; }
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters>) override {
        kept.emplace_back(epoch, d->get_words(), std::static_pointer_cast<corpus::ClassificationDocument>(d)->get_class(), std::static_pointer_cast<VP<S>>(v)->gamma,
                          std::static_pointer_cast<VP<S>>(v)->phi);
    }
    int epoch = 0;
    std::vector<std::tuple<int, VectorXi, int, Vec<S>, Mat<S>>> kept;
};

template <class S> void in_training(Rng &r, Kind kind) {
    DataOpts o;
    o.maxV = 8; o.maxD = r.chance(0.3) ? 1 : 6; o.maxC = 4; o.huge = false; o.unlabeled = kind == SEMI;
    Data d = gen_data(r, o);
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 0;
    if (kind == FSLDA || kind == SEMI) cfg.decay = r.chance(0.7);
    auto p = gen_params<S>(r, kind, r.uni(1, 4), d.V, d.C);
    auto keep = std::make_shared<KeepM<S>>();
    int I = r.uni(0, 5), more = r.uni(0, 4), W = r.uni(1, 3);
    LDA<S> lda(p, make_e<S>(cfg), keep, I, W);
    int first = r.uni(0, more);
    for (int i = 0; i < first; i++) lda.partial_fit(d.X, d.y);
    lda.fit(d.X, d.y);
    for (int i = first; i < more; i++) {
        if (kind == UNSUP && r.chance(0.3)) lda.transform(d.X);   // the others need classes
        lda.partial_fit(d.X, d.y);
    }
    std::string who = fmt("%s %s %s fit of %d epochs among %d", sname<S>(), cfg.str().c_str(), d.desc.c_str(), I, I + more);
    std::vector<float> pri(d.C, 1.0f / d.C);
    for (auto &k : keep->kept) {
        auto want = infer<S>(cfg, make_doc(std::get<1>(k), std::get<2>(k), std::make_shared<StubCorpus>(d.D, pri)), p, std::get<0>(k));
        if (!all_finite(want.gamma) || !all_finite(want.phi)) continue;
        VF_REQUIRE(rel_diff(std::get<3>(k), want.gamma, 1e-3) < 40 * eps<S>() && rel_diff(std::get<4>(k), want.phi, 1e-3) < 40 * eps<S>(), "in-training",
                   "%s: inference in epoch %d is not the one of a step after as many epochs", who.c_str(), std::get<0>(k));
        run().count("inferences in trainings");
    }
    run().distinct(mix(hash_str(who) + W));
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(64);
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), k == SLDA ? 12000 : 36000, k == SLDA ? 60000 : 600000, [k](Rng &r) { one<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), k == SLDA ? 4000 : 15000, k == SLDA ? 30000 : 300000, [k](Rng &r) { one<float>(r, static_cast<Kind>(k)); }});
    }
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("training-double-") + kind_name(k));
        s.push_back({names.back().c_str(), 400, 8000, [k](Rng &r) { in_training<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("training-float-") + kind_name(k));
        s.push_back({names.back().c_str(), 200, 4000, [k](Rng &r) { in_training<float>(r, static_cast<Kind>(k)); }});
    }
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("slow-double-") + kind_name(k));
        s.push_back({names.back().c_str(), 20, 600, [k](Rng &r) { slow_convergence<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("slow-float-") + kind_name(k));
        s.push_back({names.back().c_str(), 10, 300, [k](Rng &r) { slow_convergence<float>(r, static_cast<Kind>(k)); }});
    }
    return drive(argc, argv, "C07", s);
}
