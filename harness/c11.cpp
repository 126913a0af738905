// C11: predictions follow from the model, one document at a time.
#include "ref.hpp"

using namespace vf;

namespace {

template <class S> void one(Rng &r) {
    DataOpts o;
    o.maxV = 25; o.maxD = 14;
    outsize(r, o, 0.02, 500, 200, r.pick(std::vector<int>{25, 400}));
    Data d = gen_data(r, o);
    for (int i = 0; i < d.D; i++)
        while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    int K = r.pick(std::vector<int>{1, 2, 3, 6, 15});
    ParamOpts po;
    po.zero_words = r.pick(std::vector<double>{0, 0, 0.3});
    po.eta_scale = r.pick(std::vector<double>{0.1, 1.5, 30});
    // any model can be used for prediction, also one with class distributions
    auto p = gen_params<S>(r, r.chance(0.8) ? FSLDA : MULTI, K, d.V, d.C, po);
    // classes that are hard to tell apart, and weights of any size
    if (r.chance(0.15)) p->eta *= std::pow(S(10), r.uni(-20, 15));
    if (r.chance(0.15)) {
        double gap = std::pow(10.0, r.uni(sizeof(S) == 4 ? -5 : -11, -2)), mx = p->eta.cwiseAbs().maxCoeff();
        for (int c = 1; c < d.C; c++) for (int k = 0; k < K; k++) p->eta(k, c) = p->eta(k, 0) + gap * mx * r.real(-1, 1);
    }
    Cfg cfg = gen_cfg(r, UNSUP);
    cfg.cl = 0;
    int W = r.uni(1, 5);
    auto build = [&](int workers) {
        return std::make_shared<LDA<S>>(p, make_e<S>(cfg), std::make_shared<em::UnsupervisedMStep<S>>(), 1, workers);
    };
    auto lda = build(W);
    auto before = clone<S>(*p);
    std::string who = fmt("%s %s K=%d workers=%d %s", sname<S>(), cfg.str().c_str(), K, W, d.desc.c_str());
    double same = sizeof(S) == 4 ? 1e-6 : 1e-13, em = p->eta.cwiseAbs().maxCoeff();

    Mat<S> G = lda->transform(d.X), F;
    VectorXi Y;
    if (r.chance(0.5)) { F = lda->decision_function(d.X); Y = lda->predict(d.X); }
    else { Y = lda->predict(d.X); F = lda->decision_function(d.X); }
    VF_REQUIRE(G.rows() == K && G.cols() == d.D && F.rows() == d.C && F.cols() == d.D && Y.rows() == d.D, "shape", "%s: transform %ldx%ld, scores %ldx%ld, %ld predictions", who.c_str(),
               (long)G.rows(), (long)G.cols(), (long)F.rows(), (long)F.cols(), (long)Y.rows());
    VF_REQUIRE(all_finite(F), "scores-finite", "%s: scores %s", who.c_str(), show(F).c_str());
    for (int i = 0; i < d.D; i++) {
        LVec z = to_ld(G.col(i)) - to_ld(p->alpha);
        ld s = z.sum(), known = 0;
        bool clear = true;    // were there clearly words the model knows?
        for (int w = 0; w < d.V; w++) if (p->beta.col(w).sum() > 0) known += d.X(w, i);
        if (known == 0 || s < 1e-3L) clear = false;
        if (d.X.col(i).sum() == 0) {
            for (int c = 0; c < d.C; c++) VF_CHECK(F(c, i) == 0, "empty-document", "%s: class %d scores %g for a document without words", who.c_str(), c, (double)F(c, i));
            run().count("documents without words");
        } else if (clear) {
            z /= s;
            LVec f = to_ld(p->eta).transpose() * z;
            // gamma - alpha cancels when alpha is much larger
            ld canc = (to_ld(p->alpha).maxCoeff() + G.col(i).maxCoeff()) / s;
            ld tol = 30 * eps<S>() * (1 + canc) * (1 + K) * (1e-300L + to_ld(p->eta).cwiseAbs().maxCoeff());
            for (int c = 0; c < d.C; c++)
                VF_CHECK(fabsl(f[c] - F(c, i)) <= tol, "scores", "%s: document %d class %d scores %.10g, the expected topic proportions give %.10Lg", who.c_str(), i, c, (double)F(c, i), f[c]);
            run().count("scores compared", d.C);
        }
        VF_REQUIRE(Y[i] >= 0 && Y[i] < d.C, "prediction-range", "%s: class %d predicted", who.c_str(), Y[i]);
        VF_CHECK(F(Y[i], i) >= F.col(i).maxCoeff() - same * em, "prediction", "%s: document %d is predicted class %d with scores %s", who.c_str(), i, Y[i],
                 show(F.col(i)).c_str());
        run().count("predictions");
    }
    auto close = [&](const Mat<S> &a, const Mat<S> &b, double scale) { return rel_diff(a, b, scale) <= same; };
    double fs = em + 1e-300;
    auto agree = [&](const VectorXi &a, const VectorXi &b, const Mat<S> &f) {
        for (int i = 0; i < a.rows(); i++)
            if (a[i] != b[i] && !(std::fabs(f(a[i], i) - f(b[i], i)) <= same * 10 * fs)) return false;
        return true;
    };
    // combined call
    Mat<S> G2;
    VectorXi Y2;
    std::tie(G2, Y2) = lda->transform_predict(d.X);
    VF_CHECK(close(G2, G, 1e-3), "transform_predict", "%s: transform_predict transforms differently", who.c_str());
    VF_CHECK(Y2.rows() == d.D && agree(Y2, Y, F), "transform_predict", "%s: transform_predict predicts differently", who.c_str());
    // a permutation of the documents, some twice, some left out, other workers
    {
        int n = r.uni(1, d.D + 3);
        std::vector<int> idx(n);
        MatrixXi X2(d.V, n);
        for (int j = 0; j < n; j++) { idx[j] = r.uni(0, d.D - 1); X2.col(j) = d.X.col(idx[j]); }
        auto other = build(r.uni(1, 5));
        auto &l = r.chance(0.5) ? lda : other;
        Mat<S> g = l->transform(X2), f = l->decision_function(X2);
        VectorXi y = l->predict(X2);
        VF_REQUIRE(g.cols() == n && f.cols() == n && y.rows() == n, "shape", "%s: wrong number of results", who.c_str());
        for (int j = 0; j < n; j++) {
            int i = idx[j];
            Mat<S> a = g.col(j), b = G.col(i), fa = f.col(j), fb = F.col(i);
            VF_CHECK(close(a, b, 1e-3), "independence", "%s: document %d transforms to %s among other documents and to %s here", who.c_str(), i, show(a).c_str(), show(b).c_str());
            VF_CHECK(close(fa, fb, fs), "independence", "%s: the scores of document %d depend on the other documents of the call", who.c_str(), i);
            VectorXi ya(1), yb(1);
            ya[0] = y[j]; yb[0] = Y[i];
            VF_CHECK(agree(ya, yb, fb), "independence", "%s: the prediction of document %d depends on the other documents of the call", who.c_str(), i);
        }
        run().count("documents transformed again in other company", n);
    }
    VF_CHECK(same_params<S>(*p, *before), "model-changed", "%s: prediction changes the model", who.c_str());
    run().distinct(mix(hash_str(who) + val(G.sum() * 1e4)));
    run().sample(who);
}

// the same after a real training
template <class S> void trained(Rng &r) {
    DataOpts o;
    o.maxV = 15; o.maxD = 12; o.huge = false;
    outsize(r, o, 0.02, 200, 100);
    Data d = gen_data(r, o);
    Kind kind = r.pick(std::vector<Kind>{SLDA, FSLDA, SEMI, ONLINE});
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 0;
    int K = r.uni(1, 5);
    auto p = gen_params<S>(r, kind, K, d.V, d.C);
    {
        LDA<S> t(p, make_e<S>(cfg), make_m<S>(cfg, d.C), 2, 1);
        t.fit(d.X, d.y);
    }
    Cfg u = cfg;
    u.kind = UNSUP;
    LDA<S> lda(p, make_e<S>(u), make_m<S>(u, d.C), 1, r.uni(1, 3));
    auto before = clone<S>(*p);
    Mat<S> G = lda.transform(d.X), F = lda.decision_function(d.X);
    VectorXi Y = lda.predict(d.X);
    VF_CHECK(all_finite(F), "scores-finite", "%s: scores %s", cfg.str().c_str(), show(F).c_str());
    for (int i = 0; i < d.D; i++) {
        VF_CHECK(Y[i] >= 0 && Y[i] < d.C && F(Y[i], i) >= F.col(i).maxCoeff() - (sizeof(S) == 4 ? 1e-6 : 1e-13) * p->eta.cwiseAbs().maxCoeff(), "prediction", "%s: document %d is predicted class %d with scores %s",
                 cfg.str().c_str(), i, Y[i], show(F.col(i)).c_str());
        Mat<S> alone = lda.transform(d.X.col(i));
        VF_CHECK(rel_diff(alone, G.col(i), 1e-3) <= (sizeof(S) == 4 ? 1e-6 : 1e-13), "independence", "%s: document %d transforms differently alone", cfg.str().c_str(), i);
    }
    VF_CHECK(same_params<S>(*p, *before), "model-changed", "%s: prediction changes the model", cfg.str().c_str());
    run().count("trained models");
    run().distinct(mix(hash_str(cfg.str()) + val(G.sum() * 1e4)));
}

// calls with very many documents: each gets the result it gets alone
template <class S> void crowd(Rng &r) {
    int V = r.uni(2, 4), K = r.uni(1, 3), C = r.uni(2, 5), base = r.uni(2, 30);
    bool classes = r.chance(0.3);
    if (classes) C = r.pick(std::vector<int>{r.uni(128, 1000), r.uni(128, 1000), 33000, 66000});
    int D = classes ? r.uni(50, 5000000 / C) % 40000 + 1 : r.pick(std::vector<int>{1000, 1024, 1025, 4097, 10000, 32769, 65535, 65536, 65537, 100001});
    MatrixXi B(V, base);
    for (int i = 0; i < base; i++) for (int w = 0; w < V; w++) B(w, i) = r.chance(0.3) ? 0 : r.uni(0, 12);
    auto p = gen_params<S>(r, FSLDA, K, V, C, ParamOpts());
    Cfg cfg = gen_cfg(r, UNSUP);
    cfg.cl = 0;
    cfg.e_iters = std::min<size_t>(cfg.e_iters, 4);
    LDA<S> lda(p, make_e<S>(cfg), std::make_shared<em::UnsupervisedMStep<S>>(), 1, r.uni(1, 6));
    std::vector<int> idx(D);
    MatrixXi X(V, D);
    for (int j = 0; j < D; j++) { idx[j] = r.uni(0, base - 1); X.col(j) = B.col(idx[j]); }
    Mat<S> G = lda.transform(B), F = lda.decision_function(B), g, f;
    VectorXi Y = lda.predict(B), y;
    bool both = r.chance(0.5);
    if (both) std::tie(g, y) = lda.transform_predict(X);
    else y = lda.predict(X);
    f = lda.decision_function(X);
    VF_REQUIRE(f.cols() == D && y.rows() == D && (!both || g.cols() == D), "shape", "%s: results of %d documents have another number", sname<S>(), D);
    double same = sizeof(S) == 4 ? 1e-6 : 1e-13, em = p->eta.cwiseAbs().maxCoeff();
    for (int j = 0; j < D; j++) {
        int i = idx[j];
        if (both) VF_CHECK((g.col(j) - G.col(i)).cwiseAbs().maxCoeff() <= same * G.col(i).maxCoeff(), "crowd", "%s: document %d of %d transforms differently", sname<S>(), j, D);
        VF_CHECK((f.col(j) - F.col(i)).cwiseAbs().maxCoeff() <= same * em, "crowd", "%s: document %d of %d has other scores", sname<S>(), j, D);
        VF_CHECK(y[j] >= 0 && y[j] < C && F(y[j], i) >= F.col(i).maxCoeff() - same * em, "crowd", "%s: document %d of %d is predicted class %d instead of %d", sname<S>(), j, D, y[j], Y[i]);
        if (run().case_fails() > 3) break;
        if (j % 4096 == 0) run().tick();
    }
    run().count(classes ? "documents classified into hundreds of classes" : "documents of calls with many documents", D);
    run().distinct(mix(D + hash_str(cfg.str())));
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C11", {
        {"double", 10000, 200000, one<double>},
        {"float", 5000, 100000, one<float>},
        {"trained-double", 4000, 60000, trained<double>},
        {"trained-float", 2000, 30000, trained<float>},
        {"crowd-double", 40, 800, crowd<double>},
        {"crowd-float", 20, 400, crowd<float>},
    });
}
