// C17: the online learner updates once per full mini-batch, by the documented
// step, and carries incomplete batches over.
#include "ref.hpp"

using namespace vf;

namespace {

struct Stream {
    LMat b;                          // expected counts of all documents so far
    LMat velocity;
    std::vector<LVec> z;             // documents of the running mini-batch
    std::vector<int> y;
    long updates = 0, seen = 0;
};

template <class S, bool Large = false> void stream(Rng &r) {
    Cfg cfg = gen_cfg(r, ONLINE);
    int K = r.pick(std::vector<int>{1, 2, 3, 6, 12}), V = r.uni(1, r.chance(0.02) ? 300 : 15), C = r.uni(1, r.chance(0.02) ? 20 : 5);
    if (r.chance(0.02)) K = r.uni(13, 60);
    cfg.minibatch = r.pick(std::vector<int>{1, 2, 3, 5, 8, 17, 64, 130});
    if (Large) {
        K = r.uni(1, 3); V = r.uni(1, 4); C = r.uni(1, 3);
        cfg.minibatch = r.pick(std::vector<int>{400, 1024, 5000, 32768, 65535, 65536, 70000});
        run().count("mini-batches of hundreds to thousands of documents");
    }
    cfg.lr = r.pick(std::vector<double>{0, 1e-3, 1e-2, 0.1, 0.5});
    cfg.momentum = r.pick(std::vector<double>{0, 0.3, 0.9, 0.99});
    cfg.beta_weight = r.pick(std::vector<double>{0, 0.5, 0.9, 1});
    cfg.L = r.pick(std::vector<double>{0, 1e-2, 1, 5});
    if (r.chance(0.5)) for (int c = 0; c < C; c++) cfg.class_weights.push_back(r.pick(std::vector<double>{0, 0.2, 1, 2.5}));
    ParamOpts po;
    po.zero_words = r.chance(0.3) ? 0.3 : 0;
    auto p = gen_params<S>(r, ONLINE, K, V, C, po);
    LVec Cy(C);
    for (int c = 0; c < C; c++) Cy[c] = cfg.class_weights.empty() ? 1 : static_cast<S>(cfg.class_weights[c]);
    auto m = make_m<S>(cfg, C);
    std::vector<double> reported;
    m->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) {
        VF_CHECK(e->id() == "MaximizationProgressEvent", "event", "unexpected event %s", e->id().c_str());
        reported.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(e)->likelihood());
    });
    std::string who = fmt("%s K=%d V=%d C=%d weights=%zu %s", sname<S>(), K, V, C, cfg.class_weights.size(), cfg.str().c_str());
    Stream st;
    st.b = LMat::Zero(K, V);
    st.velocity = LMat::Zero(K, C);
    int n = r.uni(1, (int)std::min<size_t>(400, cfg.minibatch * 6 + 5));
    if (Large) n = cfg.minibatch + r.uni(0, 300);
    bool one_class = r.chance(0.2);
    double lr = static_cast<S>(cfg.lr), mom = static_cast<S>(cfg.momentum), bw = static_cast<S>(cfg.beta_weight), L = static_cast<S>(cfg.L);
    ld vtol = 0;
    // a random model
    std::string hist;
    auto old = clone<S>(*p);
    auto update = [&](const char *by) {
        // what the update has to do to the model before it
        st.updates++;
        VF_REQUIRE(reported.size() == (size_t)st.updates, "no-update", "%s: %zu updates were reported after %ld documents (%s)", who.c_str(), reported.size(), st.seen, by);
        LMat nb = st.b;
        LMat beta(K, V);
        for (int k = 0; k < K; k++) {
            ld s = nb.row(k).sum();
            for (int w = 0; w < V; w++) beta(k, w) = bw * (ld)old->beta(k, w) + (1 - (ld)bw) * (s > 0 ? nb(k, w) / s : 0);
        }
        double bt = eps<S>() * (20 + 2.0 * st.seen + V);
        // rounding relative to the averaged values, not to their average
        double worst = 0;
        for (int k = 0; k < K; k++) {
            ld s = nb.row(k).sum();
            for (int w = 0; w < V; w++) {
                ld scale = 1e-3L + std::max<ld>(old->beta(k, w), s > 0 ? nb(k, w) / s : 0);
                double e = std::fabs((ld)p->beta(k, w) - beta(k, w)) / scale;
                if (!(e <= worst)) worst = std::isnan(e) ? INFINITY : e;
            }
        }
        VF_REQUIRE(worst <= bt * 4, "beta-update", "%s: update %ld: beta %s instead of %s", who.c_str(), st.updates, show(p->beta).c_str(), show(beta.cast<double>()).c_str());
        LMat Z(K, (int)st.z.size());
        VectorXi y((int)st.y.size());
        for (size_t i = 0; i < st.z.size(); i++) { Z.col(i) = st.z[i]; y[i] = st.y[i]; }
        LMat eta0 = to_ld(old->eta);
        LMat g = ref_logistic_grad(Z, y, Cy, L, eta0);
        st.velocity = mom * st.velocity - lr * g;
        LMat eta1 = eta0 + st.velocity;
        ld wsum = 0;
        for (size_t i = 0; i < st.y.size(); i++) wsum += Cy[st.y[i]];
        ld mx = eta0.cwiseAbs().maxCoeff();
        vtol = mom * vtol + lr * eps<S>() * (30 + 4 * K + st.z.size()) * ((1 + mx) * wsum + L * mx) + eps<S>() * 4 * st.velocity.cwiseAbs().maxCoeff();
        ld etol = vtol + 4 * eps<S>() * eta1.cwiseAbs().maxCoeff() + 1e-30L;
        ld d = (to_ld(p->eta) - eta1).cwiseAbs().maxCoeff();
        VF_REQUIRE(d <= etol, "eta-update", "%s: update %ld: eta %s instead of %s (%Lg > %Lg)", who.c_str(), st.updates, show(p->eta).c_str(), show(eta1.cast<double>()).c_str(), d, etol);
        if (etol > 0) run().maximum("eta: fraction of the allowed difference used", (double)(d / etol));
        ld value = -ref_logistic(Z, y, Cy, L, to_ld(p->eta));
        ld scale = wsum * (1 + to_ld(p->eta).cwiseAbs().maxCoeff()) + L * to_ld(p->eta).squaredNorm();
        VF_REQUIRE(std::fabs(reported.back() - (double)value) <= eps<S>() * (30 + 4 * K + st.z.size() + K * C) * (double)scale, "objective", "%s: update %ld reports %.12g instead of %.12g", who.c_str(), st.updates, reported.back(), (double)value);
        VF_REQUIRE(same_bits(p->alpha, old->alpha), "alpha", "%s: the prior changes", who.c_str());
        VF_REQUIRE(all_finite(p->beta) && all_finite(p->eta), "finite", "%s: the model is not finite", who.c_str());
        st.z.clear();
        st.y.clear();
        old = clone<S>(*p);
        run().count("updates compared");
        run().count(by);
        if (cfg.class_weights.size()) run().count("updates with class weights");
    };
    for (int i = 0; i < n; i++) {
        VectorXi x = r.chance(0.1) ? VectorXi(VectorXi::Zero(V)) : gen_doc(r, V, r.pick(std::vector<int>{1, 5, 300, 100000}));
        auto vp = std::make_shared<VP<S>>();
        vp->phi = Mat<S>(K, V);
        for (int w = 0; w < V; w++) {
            for (int k = 0; k < K; k++) vp->phi(k, w) = r.expo();
            vp->phi.col(w) /= vp->phi.col(w).sum();
        }
        if (r.chance(0.2) && V > 1) vp->phi.col(r.uni(0, V - 1)).setZero();
        if (r.chance(0.1)) vp->phi.row(r.uni(0, K - 1)).setZero();
        vp->gamma = p->alpha;
        for (int w = 0; w < V; w++) if (x[w]) vp->gamma += S(x[w]) * vp->phi.col(w);
        int y = one_class ? 0 : r.uni(0, C - 1);
        auto before = clone<S>(*p);
        auto vp0 = *vp;
        size_t rep = reported.size();
        m->doc_m_step(make_doc(x, y), vp, p);
        VF_CHECK(same_bits(vp->phi, vp0.phi) && same_bits(vp->gamma, vp0.gamma), "document-changed", "%s: the statistics of a document change", who.c_str());
        st.seen++;
        for (int w = 0; w < V; w++) if (x[w]) for (int k = 0; k < K; k++) st.b(k, w) += (ld)vp->phi(k, w) * x[w];
        LVec z(K);
        ld s = 0;
        for (int k = 0; k < K; k++) { z[k] = (S)(vp->gamma[k] - p->alpha[k]); s += z[k]; }
        if (s != 0) z /= s;
        else run().count("documents without words");
        st.z.push_back(z);
        st.y.push_back(y);
        hist += 'd';
        bool full = st.z.size() == cfg.minibatch;
        if (!full) {
            VF_REQUIRE(reported.size() == rep && same_params(*p, *before), "early-update", "%s: the model changes after %zu of %zu documents", who.c_str(), st.z.size(), cfg.minibatch);
            run().count("documents without an update");
        } else {
            update("updates by the last document of a batch");
            hist += 'U';
        }
        // an epoch ends: the learner is asked to update
        if (r.chance(0.15) || (full && r.chance(0.3))) {
            int times = r.uni(1, 2);
            for (int t = 0; t < times; t++) {
                auto b4 = clone<S>(*p);
                size_t rp = reported.size();
                m->m_step(p);
                VF_REQUIRE(reported.size() == rp && same_params(*p, *b4), "epoch-end-update", "%s: the end of an epoch after %zu of %zu documents changes the model", who.c_str(), st.z.size(), cfg.minibatch);
                run().count("ends of epochs without a complete batch");
                hist += 'e';
            }
        }
    }
    run().distinct(hist + who);
    run().sample(who + " " + hist);
}

// Through the library: n documents over any number of epochs are n/minibatch
// updates, and the model moves only with them.
template <class S> void facade(Rng &r) {
    DataOpts o;
    o.maxD = 25; o.maxV = 12; o.huge = false;
    outsize(r, o);
    Cfg cfg = gen_cfg(r, ONLINE);
    cfg.minibatch = r.uni(1, r.chance(0.1) ? 300 : 30);
    cfg.cl = 0;
    cfg.e_iters = r.uni(1, 4);
    Data d = gen_data(r, o);
    int K = r.uni(1, 5), W = r.uni(1, 4);
    auto p = gen_params<S>(r, ONLINE, K, d.V, d.C);
    LDA<S> lda(p, make_e<S>(cfg), make_m<S>(cfg, d.C), 1, W);
    long docs = 0, updates = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) {
        if (e->id() == "MaximizationProgressEvent") updates++;
    });
    std::string who = fmt("%s K=%d workers=%d %s %s", sname<S>(), K, W, cfg.str().c_str(), d.desc.c_str());
    int epochs = r.uni(1, 6);
    for (int e = 0; e < epochs; e++) {
        auto before = clone<S>(*p);
        long u0 = updates;
        int n = r.uni(1, d.D);
        MatrixXi X = d.X.leftCols(n);
        VectorXi y = d.y.head(n);
        lda.partial_fit(X, y);
        docs += n;
        VF_REQUIRE(updates == docs / (long)cfg.minibatch, "update-count", "%s: %ld updates after %ld documents in %d epochs", who.c_str(), updates, docs, e + 1);
        if (updates == u0) {
            VF_REQUIRE(same_params(*p, *before), "changed-without-update", "%s: the model changes in an epoch without an update", who.c_str());
            run().count("epochs without an update");
        } else run().count("epochs with updates");
    }
    run().distinct(who);
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C17", {
        {"stream-double", 16000, 120000, stream<double>},
        {"stream-float", 10000, 80000, stream<float>},
        {"large-batches-double", 32, 240, stream<double, true>},
        {"large-batches-float", 16, 120, stream<float, true>},
        {"library-double", 6000, 40000, facade<double>},
        {"library-float", 2800, 20000, facade<float>},
    });
}
