// C08: the reported likelihood is the evidence lower bound at the inferred
// parameters; for unsupervised inference it is below the exact log probability
// and does not decrease with the iterations.
#include "ref.hpp"

using namespace vf;

namespace {

template <class S> struct Seen {
    Mat<S> phi;
    Vec<S> gamma, tau;
    double likelihood = NAN;
    int events = 0;
};

template <class S> Seen<S> infer(const Cfg &cfg, std::shared_ptr<corpus::Document> doc, PParams<S> p) {
    auto e = make_e<S>(cfg);
    Seen<S> s;
    e->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "ExpectationProgressEvent") {
            s.events++;
            s.likelihood = std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood();
        }
    });
    auto vp = std::static_pointer_cast<VP<S>>(e->doc_e_step(doc, p));
    s.phi = vp->phi;
    s.gamma = vp->gamma;
    if (cfg.kind == CORR) s.tau = std::static_pointer_cast<CVP<S>>(std::static_pointer_cast<parameters::Parameters>(vp))->tau;
    VF_REQUIRE(s.events == 1, "events", "%s: %d likelihood events for a document", cfg.str().c_str(), s.events);
    return s;
}

template <class S> void value(Rng &r, Kind kind) {
    int V = r.uni(1, r.chance(0.02) ? (kind != SLDA && sizeof(S) == 8 && r.chance(0.03) ? (instrumented || kind == CORR ? 6000 : 70000) : 600) : 25), K = r.pick(std::vector<int>{1, 2, 3, 6, 15}), C = r.uni(1, r.chance(0.02) ? 40 : 6);
    if (r.chance(0.02)) K = r.uni(16, 120);
    VectorXi x = gen_doc(r, V, V > 5000 ? 40 : r.pick(std::vector<int>{1, 5, 40, 1000, 300000}));
    if (V > 5000) { K = std::min(K, 3); run().count("vocabularies of thousands of words"); }
    if (r.chance(0.05)) x.setZero();
    int y = kind == SEMI && r.chance(0.4) ? -2 : r.uni(0, C - 1);
    ParamOpts po;
    // words that no topic generates: not for the models with a log of their assignments
    if (kind == UNSUP || kind == MULTI || kind == CORR) {
        po.zero_entries = r.pick(std::vector<double>{0, 0.2});
        if (kind == UNSUP) po.zero_words = r.pick(std::vector<double>{0, 0.2});
    }
    auto p = gen_params<S>(r, kind, K, V, C, po);
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 1;
    int D = r.chance(0.2) ? r.pick(std::vector<int>{r.uni(61, 300), r.uni(30000, 70000), r.uni(61, 2000000)}) : r.uni(1, 60);
    std::vector<float> pri;
    for (int c = 0; c < C; c++) pri.push_back(r.real(0.01, 1));
    auto corpus = std::make_shared<StubCorpus>(D, pri);
    auto doc = make_doc(x, y, corpus);
    auto s = infer<S>(cfg, doc, p);
    if (!all_finite(s.phi) || !all_finite(s.gamma)) throw Skip();   // C06
    // no iteration at all: topics that cannot generate a word still hold it and
    // the bound is minus infinity
    for (int n = 0; n < V; n++)
        for (int k = 0; k < K; k++) if (x[n] && s.phi(k, n) > 0 && p->beta(k, n) == 0) throw Skip();
    LVec alpha = to_ld(p->alpha), gamma = to_ld(s.gamma), tau = to_ld(s.tau);
    LMat beta = to_ld(p->beta), eta = to_ld(p->eta), phi = to_ld(s.phi);
    Elbo e;
    if (kind == UNSUP || y < 0) e = ref_unsupervised(x, alpha, beta, phi, gamma);
    else if (kind == SLDA || kind == FSLDA || kind == SEMI) e = ref_supervised(x, y, alpha, beta, eta, phi, gamma);
    else if (kind == MULTI) e = ref_multinomial(x, y, alpha, beta, eta, phi, gamma, pri[y], (S)cfg.mu, 1.0L / D);
    else e = ref_correspondence(x, y, alpha, beta, eta, phi, gamma, tau, (S)cfg.mu, 1.0L / D);
    double tol = (sizeof(S) == 4 ? 3e-5 : 2e-6) * (double)(e.scale + 1) + 1.1 * (double)e.table;
    double diff = std::fabs(s.likelihood - (double)e.value);
    run().maximum(std::string(sname<S>()) + ": |reported - bound| / sum of magnitudes (models without a table based term)", e.table > 0 ? 0 : diff / (double)(e.scale + 1));
    if (e.table > 0) run().maximum("supervised: fraction of the allowed difference used", diff / tol);
    VF_CHECK(diff <= tol, "value", "%s %s K=%d V=%d N=%d class %d of %d: reported %.10g, the bound is %.10Lg (allowed difference %.3g)", sname<S>(), cfg.str().c_str(), K,
             V, x.sum(), y, C, s.likelihood, e.value, tol);
    run().count(std::string("bounds compared: ") + kind_name(kind));
    run().distinct(mix(hash_str(cfg.str()) + val(s.likelihood * 1e6)));
    run().sample(fmt("%s K=%d V=%d N=%d: %.9g vs %.9Lg", cfg.str().c_str(), K, V, x.sum(), s.likelihood, e.value));
}

template <class S> void bound(Rng &r) {
    int V = r.uni(1, 6), K = r.uni(1, 4);
    VectorXi x = VectorXi::Zero(V);
    for (int i = r.uni(1, K == 4 ? 7 : 9); i > 0; i--) x[r.uni(0, V - 1)]++;
    ParamOpts po;
    po.zero_entries = r.pick(std::vector<double>{0, 0.2});
    auto p = gen_params<S>(r, UNSUP, K, V, 1, po);
    for (int n = 0; n < V; n++) if (x[n] && p->beta.col(n).sum() == 0) throw Skip();
    Cfg cfg = gen_cfg(r, UNSUP);
    cfg.cl = 1;
    cfg.e_iters = r.uni(1, 40);
    auto s = infer<S>(cfg, make_doc(x, 0), p);
    ld exact = exact_log_prob(x, to_ld(p->alpha), to_ld(p->beta));
    double tol = (sizeof(S) == 4 ? 1e-4 : 1e-6) * (1 + std::fabs((double)exact) + (double)p->alpha.sum());
    VF_CHECK(s.likelihood <= (double)exact + tol, "above-exact", "%s %s K=%d document %s: reported %.10g, but the log probability is %.10Lg", sname<S>(), cfg.str().c_str(), K,
             show(x).c_str(), s.likelihood, exact);
    run().maximum("reported - exact log probability", s.likelihood - (double)exact);
    run().count("exact log probabilities");
    run().distinct(mix(val(s.likelihood * 1e6) + val((double)exact * 1e7)));
}

template <class S> void monotone(Rng &r) {
    int V = r.uni(1, r.chance(0.02) ? (sizeof(S) == 8 && r.chance(0.03) ? (instrumented ? 6000 : 70000) : 300) : 20), K = r.uni(1, r.chance(0.02) ? 60 : 8);
    if (V > 5000) K = std::min(K, 3);
    VectorXi x = gen_doc(r, V, r.pick(std::vector<int>{1, 5, 40}));
    ParamOpts po;
    po.zero_entries = r.pick(std::vector<double>{0, 0.2});
    po.min_alpha = 0.05;
    auto p = gen_params<S>(r, UNSUP, K, V, 1, po);
    for (int n = 0; n < V; n++) if (p->beta.col(n).sum() == 0) throw Skip();
    Cfg cfg = gen_cfg(r, UNSUP);
    cfg.cl = 1;
    cfg.e_tol = 0;
    Seen<S> prev;
    int T = r.uni(2, V > 5000 ? 4 : 12);
    for (int t = 1; t <= T; t++) {
        cfg.e_iters = t;
        auto s = infer<S>(cfg, make_doc(x, 0), p);
        if (t > 1) {
            // what the exponential's error can cost: KL(phi with errors || optimal phi)
            LVec psi(K);
            for (int k = 0; k < K; k++) psi[k] = ref_digamma(prev.gamma[k]);
            ld m = psi.maxCoeff(), slack = 0, scale = 1;
            for (int n = 0; n < V; n++) {
                if (!x[n]) continue;
                for (int k = 0; k < K; k++) {
                    ld e = 2 * std::max(exp_err(psi[k]), exp_err(psi[k] - m));
                    slack += x[n] * s.phi(k, n) * e * e;
                    scale += x[n] * s.phi(k, n) * (1 + fabsl(psi[k]) + fabsl(logl(p->beta(k, n) + 1e-30L)));
                }
            }
            scale += fabsl(s.likelihood) + x.sum() * logl(2 + x.sum());
            // the terms of the prior cancel, too
            scale = std::max(scale, ref_unsupervised(x, to_ld(p->alpha), to_ld(p->beta), to_ld(s.phi), to_ld(s.gamma)).scale);
            double tol = (double)slack + (sizeof(S) == 4 ? 2e-5 : 1e-7) * (double)scale;
            VF_REQUIRE(s.likelihood >= prev.likelihood - tol, "decreases", "%s %s K=%d V=%d N=%d: from %.10g to %.10g in iteration %d (allowed loss %.3g)", sname<S>(),
                       cfg.str().c_str(), K, V, x.sum(), prev.likelihood, s.likelihood, t, tol);
            run().count("iterations compared");
            if (s.likelihood > prev.likelihood + tol) run().count("improving iterations");
            run().maximum("allowed loss", tol);
        }
        prev = s;
    }
    run().distinct(mix(val(prev.likelihood * 1e6) + T * 31 + K));
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), 36000, 600000, [k](Rng &r) { value<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), 18000, 300000, [k](Rng &r) { value<float>(r, static_cast<Kind>(k)); }});
    }
    s.push_back({"bound-double", 18000, 200000, bound<double>});
    s.push_back({"bound-float", 9000, 100000, bound<float>});
    s.push_back({"monotone-double", 18000, 300000, monotone<double>});
    s.push_back({"monotone-float", 9000, 100000, monotone<float>});
    return drive(argc, argv, "C08", s);
}
