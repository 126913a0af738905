// C06: the results of inference are valid distributions and conserve the words.
#include "models.hpp"

using namespace vf;

template <class S> void one(Rng &r, Kind kind) {
    DataOpts o;
    o.maxV = 30; o.maxD = 6; o.unlabeled = kind == SEMI;
    if (r.chance(0.02)) { o.maxV = 900; o.maxD = 3; }
    bool wide = kind != SLDA && r.chance(0.001);
    if (wide) {
        o.minV = instrumented || kind == CORR ? 4097 : r.pick(std::vector<int>{4097, 33000, 65537});
        o.maxV = o.minV + (kind == CORR ? 500 : 3000);
        o.maxD = 2;
        o.huge = false;
        run().count("vocabularies of thousands of words");
    }
    Data d = gen_data(r, o);
    if (r.chance(0.15)) d.X = (d.X.array() * 1000).matrix();
    for (int i = 0; i < d.D; i++)     // the number of words of a document is an int
        while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    int K = wide ? r.uni(1, 3) : r.pick(std::vector<int>{1, 2, 3, 5, 10, 40, 150});
    ParamOpts po;
    po.zero_words = r.pick(std::vector<double>{0, 0, 0.2});
    po.zero_entries = r.pick(std::vector<double>{0, 0, 0.3});
    if (sizeof(S) == 4 && K > 10) po.zero_entries = 0;   // the range of a float
    if (r.chance(0.1)) { po.min_alpha = 1e-3; po.max_alpha = 100; }
    auto p = gen_params<S>(r, kind, K, d.V, d.C, po);
    if (po.zero_entries == 0 && r.chance(0.1)) {
        for (int n = 0; n < d.V; n++)
            if (r.chance(0.3)) p->beta.col(n) *= S(std::pow(10.0, -r.real(3, sizeof(S) == 4 ? 8 : 60)));
        run().count("models with faint words");
    }
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = r.pick(std::vector<double>{0, 1});
    auto before = clone<S>(*p);
    auto X0 = d.X;
    auto c = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
    auto e = make_e<S>(cfg);
    std::vector<std::shared_ptr<VP<S>>> first(d.D);
    double tol = 40 * eps<S>();
    // with zeros in beta a word's only topics can be so unlikely for the class
    // that they underflow
    bool extreme = false;
    if (po.zero_entries > 0 && (kind == FSLDA || kind == SEMI)) {
        double mx = p->eta.maxCoeff(), ab = p->eta.cwiseAbs().maxCoeff();
        extreme = cfg.C * (mx > 0 ? ab / mx : ab) * 2 > 50;
    }
    auto infer = [&](int i) { return std::static_pointer_cast<VP<S>>(e->doc_e_step(c->at(i), p)); };
    for (int i = 0; i < d.D; i++) {
        auto vp = first[i] = infer(i);
        VectorXi x = d.X.col(i);
        double N = x.cast<double>().sum();
        std::string who = fmt("%s %s K=%d document %d of %g words", sname<S>(), cfg.str().c_str(), K, i, N);
        VF_REQUIRE(vp->gamma.rows() == K && vp->gamma.cols() == 1 && vp->phi.rows() == K && vp->phi.cols() == d.V, "shape",
                   "%s: gamma %ldx%ld phi %ldx%ld", who.c_str(), (long)vp->gamma.rows(), (long)vp->gamma.cols(), (long)vp->phi.rows(), (long)vp->phi.cols());
        // known finding: in single precision the incremental gamma of the
        // supervised E step of a document with very many words cancels
        if (kind == SLDA && cancels<S>(N, p->alpha)) {
            bool bad = !all_finite(vp->gamma) || !all_finite(vp->phi) || vp->gamma.minCoeff() <= 0 ||
                       (vp->gamma - p->alpha).minCoeff() < -1e-5 * N;
            run().count("float supervised huge documents");
            VF_CHECK(!bad, "float-supervised-cancellation", "%s: gamma %s", who.c_str(), show(vp->gamma).c_str());
            if (bad) { first[i] = nullptr; continue; }
        }
        VF_REQUIRE(all_finite(vp->gamma), "gamma-finite", "%s: gamma %s", who.c_str(), show(vp->gamma).c_str());
        VF_REQUIRE(all_finite(vp->phi), "phi-finite", "%s: phi %s", who.c_str(), show(vp->phi).c_str());
        double known = 0;
        for (int w = 0; w < d.V; w++) {
            double s = 0, b = 0;
            bool neg = false;
            for (int k = 0; k < K; k++) { s += vp->phi(k, w); b += p->beta(k, w); neg |= vp->phi(k, w) < 0; }
            VF_CHECK(!neg, "phi-negative", "%s: negative assignment of word %d", who.c_str(), w);
            bool unit = std::fabs(s - 1) <= tol * K;
            // (a word that is not in the document and that only topics which
            // are next to impossible in it generate may underflow)
            if (b > 0 && (x[w] || po.zero_entries == 0) && !extreme) {
                VF_CHECK(unit, "phi-sum", "%s: the assignments of word %d (seen %d times) sum to %.9g", who.c_str(), w, x[w], s);
            } else {
                // a word that no topic generates: no assignment, or an arbitrary one
                VF_CHECK(unit || s == 0, "phi-sum", "%s: the assignments of unknown word %d sum to %.9g", who.c_str(), w, s);
                if (!(b > 0)) run().count("words no topic knows");
            }
            if (s > 0.5) known += x[w];
            if (x[w]) run().count("word assignments");
        }
        // gamma = alpha + sum of count weighted assignments
        double worst = 0;
        for (int k = 0; k < K; k++) {
            double g = p->alpha[k];
            for (int w = 0; w < d.V; w++) if (x[w]) g += double(x[w]) * vp->phi(k, w);
            double e = std::fabs(g - vp->gamma[k]) / (N + g);
            worst = std::max(worst, e);
            VF_CHECK(vp->gamma[k] >= p->alpha[k] * (1 - tol) - tol * N, "gamma-prior", "%s: gamma[%d]=%.9g is below the prior %.9g", who.c_str(), k, (double)vp->gamma[k], (double)p->alpha[k]);
            VF_CHECK(vp->gamma[k] > 0, "gamma-positive", "%s: gamma[%d]=%.9g", who.c_str(), k, (double)vp->gamma[k]);
        }
        run().maximum(std::string("error of gamma / (number of words) in ") + sname<S>() + " epsilons", worst / eps<S>());
        // the supervised E step updates gamma incrementally
        VF_CHECK(worst <= tol * (kind == SLDA ? 40 : 4), "gamma-assignments", "%s: gamma differs from the prior plus the assignments by %.3g of the words", who.c_str(), worst);
        double sg = vp->gamma.template cast<double>().sum(), sa = p->alpha.template cast<double>().sum();
        VF_CHECK(std::fabs(sg - sa - known) <= tol * (kind == SLDA ? 40 : 4) * (known + sa) * 2, "conservation", "%s: gamma sums to %.9g, prior %.9g, words the model can generate %.9g",
                 who.c_str(), sg, sa, known);
        if (kind == CORR) {
            auto cvp = std::static_pointer_cast<CVP<S>>(std::static_pointer_cast<parameters::Parameters>(vp));
            VF_REQUIRE(cvp->tau.rows() == d.V, "shape", "%s: tau of %ld", who.c_str(), (long)cvp->tau.rows());
            VF_CHECK(all_finite(cvp->tau), "tau-finite", "%s: tau %s", who.c_str(), show(cvp->tau).c_str());
            VF_CHECK(cvp->tau.minCoeff() >= 0, "tau-negative", "%s: tau %s", who.c_str(), show(cvp->tau).c_str());
            VF_CHECK(std::fabs((double)cvp->tau.sum() - 1) <= tol * d.V, "tau-sum", "%s: tau sums to %.9g", who.c_str(), (double)cvp->tau.sum());
        }
        run().count("documents");
        run().distinct(mix(hash_str(who) + N * 7));
        if (run().case_fails() > 5) throw Abort();
    }
    // inference leaves everything alone and can be repeated in any order
    VF_CHECK(same_params<S>(*p, *before), "model-changed", "%s: inference changes the model", cfg.str().c_str());
    VF_CHECK(d.X == X0, "documents-changed", "%s: inference changes the documents", cfg.str().c_str());
    for (int t = 0; t < 3; t++) {
        int i = r.uni(0, d.D - 1);
        if (!first[i]) continue;
        auto vp = infer(i);
        VF_CHECK(rel_diff(vp->gamma, first[i]->gamma, 1e-3) <= 1e-3 * tol + 1e-12 && rel_diff(vp->phi, first[i]->phi, 1e-3) <= 1e-3 * tol + 1e-12, "not-repeatable",
                 "%s: inferring document %d again gives %s instead of %s", cfg.str().c_str(), i, show(vp->gamma).c_str(), show(first[i]->gamma).c_str());
        run().count("repeated inferences");
    }
    run().sample(fmt("%s %s K=%d %s", sname<S>(), cfg.str().c_str(), K, d.desc.c_str()));
}

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), 10000, 400000, [k](Rng &r) { one<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), 5000, 200000, [k](Rng &r) { one<float>(r, static_cast<Kind>(k)); }});
    }
    return drive(argc, argv, "C06", s);
}
