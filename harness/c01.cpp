// C01: results do not depend on the number of workers nor on the schedule.
#include "models.hpp"
#include "perturb.hpp"

using namespace vf;

namespace {

// a corpus that takes its time to hand out some of its documents, and logs the
// order in which they are taken
class SlowCorpus : public corpus::EigenClassificationCorpus {
  public:
    SlowCorpus(const MatrixXi &X, const VectorXi &y, int style, uint64_t seed)
        : corpus::EigenClassificationCorpus(X, y, 3), style_(style), seed_(seed) {}
    const std::shared_ptr<corpus::Document> at(size_t i) const override {
        auto d = corpus::EigenClassificationCorpus::at(i);
        uint64_t h = mix(seed_ * 131 + i);
        int us = style_ == 0 ? 0 : style_ == 1 ? h % 50 : style_ == 2 ? (h % 6 == 0 ? 600 : 0) : (i == 0 ? 1500 : 0);
        if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
        return d;
    }

  private:
    int style_;
    uint64_t seed_;
};

void shake(Rng &r) {
    perturb().seed = r.next() | 1;
    perturb().level = r.pick(std::vector<int>{0, 10, 40});
    perturb().spurious = r.pick(std::vector<int>{0, 100});
}
void calm() { perturb().level = 0; perturb().spurious = 0; }

template <class S> struct Epoch {
    std::vector<double> likelihoods;       // in order of delivery
};

template <class S> void epochs(Rng &r, Kind kind) {
    DataOpts o;
    o.maxV = 15; o.maxD = 16; o.minD = 1; o.huge = false; o.unlabeled = kind == SEMI;
    outsize(r, o, 0.04, 200, 80);
    Data d = gen_data(r, o);
    int K = r.uni(1, 6);
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 1;
    cfg.m_iters = r.uni(0, 4);
    cfg.m_tol = -1e9;
    auto start = gen_params<S>(r, kind, K, d.V, d.C);
    std::vector<int> workers{1, r.uni(2, 4), r.uni(5, 12)};
    struct Run1 {
        PParams<S> p;
        std::shared_ptr<LDA<S>> lda;
        std::vector<double> lik;
        double epoch_lik = 0;
    };
    std::vector<Run1> runs(workers.size());
    for (size_t i = 0; i < runs.size(); i++) {
        auto &x = runs[i];
        x.p = clone<S>(*start);
        x.lda = std::make_shared<LDA<S>>(x.p, make_e<S>(cfg), make_m<S>(cfg, d.C), 1, workers[i]);
        x.lda->get_event_dispatcher()->add_listener([&x](std::shared_ptr<events::Event> e) {
            if (e->id() == "ExpectationProgressEvent") x.lik.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S>>(e)->likelihood());
        });
    }
    int E = r.uni(1, 3);
    bool matrix_api = r.chance(0.3);
    std::string who = fmt("%s %s K=%d %s", sname<S>(), cfg.str().c_str(), K, d.desc.c_str());
    double beta_tol = (sizeof(S) == 4 ? 2e-5 : 1e-12) * (1 + d.D), lik_tol = sizeof(S) == 4 ? 1e-4 : 1e-11;
    for (int epoch = 0; epoch < E; epoch++) {
        // what the M step makes of the inferred parameters, in several orders of
        // the documents: how well is the result determined?
        auto ref_e = make_e<S>(cfg);
        for (int i = 0; i < epoch; i++) ref_e->e_step();
        auto model = clone<S>(*runs[0].p);
        auto corp = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
        std::vector<std::shared_ptr<corpus::Document>> docs;
        std::vector<std::shared_ptr<parameters::Parameters>> vps;
        std::vector<int> idx;
        for (int i = 0; i < d.D; i++) {
            docs.push_back(corp->at(i));
            vps.push_back(ref_e->doc_e_step(docs.back(), model));
            idx.push_back(i);
        }
        std::vector<PParams<S>> variants;
        double spread = 0;
        auto variant = [&]() {
            auto m = make_m<S>(cfg, d.C);
            auto q = clone<S>(*model);
            for (int i : idx) m->doc_m_step(docs[i], vps[i], q);
            m->m_step(q);
            variants.push_back(q);
            spread = std::max(spread, rel_diff(q->eta, variants[0]->eta, 1.0));
            r.shuffle(idx.begin(), idx.end());
        };
        for (int v = 0; v < 5; v++) variant();
        for (size_t i = 0; i < runs.size(); i++) {
            runs[i].lik.clear();
            *runs[i].p = *model;         // in step with the others
            shake(r);
            if (matrix_api) runs[i].lda->partial_fit(d.X, d.y);
            else runs[i].lda->partial_fit(std::make_shared<SlowCorpus>(d.X, d.y, r.uni(0, 3), r.next()));
            calm();
            uint64_t order = 7;
            for (double l : runs[i].lik) { uint64_t b; memcpy(&b, &l, 8); order = mix(order * 31 + b); }
            if (i) run().distinct(order);
            std::sort(runs[i].lik.begin(), runs[i].lik.end());
        }
        // where the line search stands on a plateau of rounding, it may take a
        // step of a size of the square root of epsilon or not
        double eta_tol = (sizeof(S) == 4 ? 1e-2 : 1e-6) + 100 * spread;
        for (size_t i = 0; i < runs.size(); i++) {
            // against one worker, and the one worker against the steps called by hand
            auto &x = runs[i];
            const Params<S> &want = i ? *runs[0].p : *variants[0];
            std::string a = fmt("%s epoch %d: %d workers", who.c_str(), epoch, workers[i]);
            VF_REQUIRE(rel_diff(x.p->beta, want.beta, 1e-3) <= beta_tol, "topics", "%s: topics %s instead of %s", a.c_str(), show(x.p->beta).c_str(), show(want.beta).c_str());
            if (rel_diff(x.p->eta, want.eta, 1.0) > eta_tol) {
                // is a step of the line search decided by rounding?
                for (int v = 0; v < 300; v++) variant();
                run().count("suspicious differences looked into");
                eta_tol = std::max(eta_tol, 5 * spread);
            }
            if (spread < (sizeof(S) == 4 ? 1e-3 : 1e-6)) {
                VF_REQUIRE(rel_diff(x.p->eta, want.eta, 1.0) <= eta_tol, "class-parameters", "%s: class parameters %s instead of %s", a.c_str(), show(x.p->eta).c_str(), show(want.eta).c_str());
                run().count("class parameters compared");
            } else run().count("class parameters left out: a line search step hinges on rounding");
            VF_REQUIRE(same_bits(x.p->alpha, want.alpha), "alpha", "%s: prior differs", a.c_str());
            VF_REQUIRE((int)x.lik.size() == d.D, "likelihoods", "%s: %zu likelihoods", a.c_str(), x.lik.size());
            for (int j = 0; j < d.D; j++)
                VF_REQUIRE(std::fabs(x.lik[j] - runs[0].lik[j]) <= lik_tol * (1 + std::fabs(runs[0].lik[j])), "likelihoods", "%s: likelihood %.12g instead of %.12g", a.c_str(), x.lik[j], runs[0].lik[j]);
        }
        run().count("epochs compared", runs.size());
        if (!all_finite(runs[0].p->beta) || !all_finite(runs[0].p->eta)) return;
    }
    run().sample(who);
}

template <class S> void inference(Rng &r) {
    DataOpts o;
    o.maxV = 15; o.maxD = 60; o.minD = 1; o.huge = false;
    outsize(r, o, 0.04, 200, 400);
    Data d = gen_data(r, o);
    int K = r.uni(1, 6);
    Cfg cfg = gen_cfg(r, UNSUP);
    cfg.cl = r.pick(std::vector<double>{0, 0.5, 1});
    auto p = gen_params<S>(r, FSLDA, K, d.V, d.C);
    auto make = [&](int W) { return std::make_shared<LDA<S>>(p, make_e<S>(cfg), make_m<S>(cfg, d.C), 1, W); };
    Mat<S> want = make(1)->transform(d.X);
    // by hand, document by document
    auto e = make_e<S>(cfg);
    auto corp = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
    double tol = sizeof(S) == 4 ? 1e-6 : 1e-13;
    std::string who = fmt("%s %s K=%d %s", sname<S>(), cfg.str().c_str(), K, d.desc.c_str());
    for (int i = 0; i < d.D; i++) {
        auto vp = std::static_pointer_cast<VP<S>>(e->doc_e_step(corp->at(i), p));
        VF_REQUIRE(rel_diff(vp->gamma, want.col(i), 1e-3) <= tol, "order", "%s: result %d is not the result of document %d", who.c_str(), i, i);
    }
    VectorXi y = make(1)->predict(d.X);
    uint64_t order = 7;
    for (int t = 0; t < 4; t++) {
        int W = r.uni(1, 12);
        auto lda = make(W);
        lda->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) {
            if (e->id() != "ExpectationProgressEvent") return;
            double l = std::static_pointer_cast<events::ExpectationProgressEvent<S>>(e)->likelihood();
            uint64_t b;
            memcpy(&b, &l, 8);
            order = mix(order * 31 + b);
        });
        shake(r);
        Mat<S> got = lda->transform(d.X);
        VectorXi y2 = lda->predict(d.X);
        calm();
        VF_REQUIRE(rel_diff(got, want, 1e-3) <= tol, "transform", "%s: %d workers give another result", who.c_str(), W);
        VF_REQUIRE(y2.rows() == y.rows() && (y2.array() == y.array()).all(), "predict", "%s: %d workers give another prediction", who.c_str(), W);
        run().count("inferences compared", d.D);
        run().distinct(order);
    }
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    for (int k = 0; k < ONLINE; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), 400, 8000, [k](Rng &r) { epochs<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), 120, 2500, [k](Rng &r) { epochs<float>(r, static_cast<Kind>(k)); }});
    }
    s.push_back({"inference-double", 500, 15000, inference<double>});
    s.push_back({"inference-float", 200, 5000, inference<float>});
    return drive(argc, argv, "C01", s);
}
