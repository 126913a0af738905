// C10: every epoch of every training procedure leaves a valid, finite model.
#include "models.hpp"

using namespace vf;

namespace {

template <class S> void check(const Params<S> &p, const Params<S> &start, int K, int V, int C, Kind kind, const std::string &prefix, const std::string &who) {
    VF_REQUIRE(p.alpha.rows() == K && p.beta.rows() == K && p.beta.cols() == V && p.eta.rows() == K && p.eta.cols() == C, prefix + "shape",
               "%s: alpha %ld, beta %ldx%ld, eta %ldx%ld", who.c_str(), (long)p.alpha.rows(), (long)p.beta.rows(), (long)p.beta.cols(), (long)p.eta.rows(), (long)p.eta.cols());
    VF_REQUIRE(same_bits(p.alpha, start.alpha), prefix + "alpha", "%s: the prior changed to %s", who.c_str(), show(p.alpha).c_str());
    VF_REQUIRE(all_finite(p.beta), prefix + "beta-finite", "%s: beta %s", who.c_str(), show(p.beta).c_str());
    VF_REQUIRE(all_finite(p.eta), prefix + "eta-finite", "%s: eta %s", who.c_str(), show(p.eta).c_str());
    double tol = 60 * eps<S>() * std::max(4, V);
    for (int k = 0; k < K; k++) {
        double s = 0;
        for (int w = 0; w < V; w++) {
            VF_REQUIRE(p.beta(k, w) >= 0, prefix + "beta-negative", "%s: beta(%d,%d)=%g", who.c_str(), k, w, (double)p.beta(k, w));
            s += p.beta(k, w);
        }
        // the online learner averages an old and a new topic, either of which may be empty
        bool ok = std::fabs(s - 1) <= tol || s == 0 || (kind == ONLINE && s > 0 && s <= 1 + tol);
        if (s == 0) run().count("empty topics");
        VF_REQUIRE(ok, prefix + "beta-sum", "%s: topic %d sums to %.10g", who.c_str(), k, s);
        if (class_distribution(kind)) {
            double t = 0;
            for (int c = 0; c < C; c++) {
                VF_REQUIRE(p.eta(k, c) > 0, prefix + "eta-positive", "%s: eta(%d,%d)=%g", who.c_str(), k, c, (double)p.eta(k, c));
                t += p.eta(k, c);
            }
            VF_REQUIRE(std::fabs(t - 1) <= 60 * eps<S>() * std::max(4, C), prefix + "eta-sum", "%s: class distribution of topic %d sums to %.10g", who.c_str(), k, t);
        }
    }
    run().count("models checked");
}

template <class S> void one(Rng &r, Kind kind) {
    DataOpts o;
    o.unlabeled = kind == SEMI;
    o.maxV = 30; o.maxD = 15;
    outsize(r, o);
    Data d = gen_data(r, o);
    for (int i = 0; i < d.D; i++)
        while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    int K = r.pick(std::vector<int>{1, 2, 3, 7, 20, 80});
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = r.pick(std::vector<double>{0, 1});
    cfg.e_iters = r.uni(1, 8);
    cfg.m_iters = r.pick(std::vector<int>{0, 1, 5, 30});
    if (kind == ONLINE && r.chance(0.4))
        for (int c = 0; c < d.C; c++) cfg.class_weights.push_back(r.real(0, 3));
    ParamOpts po;
    po.zero_words = r.pick(std::vector<double>{0, 0, 0.3});
    po.zero_entries = r.pick(std::vector<double>{0, 0, 0.4});
    po.eta_scale = r.pick(std::vector<double>{0.5, 1.5, 5});
    if (po.zero_words > 0 && (kind == FSLDA || kind == SEMI || kind == ONLINE)) cfg.cl = 0;   // C08's domain
    auto p = gen_params<S>(r, kind, K, d.V, d.C, po);
    // initial topics a builder makes
    if (r.chance(0.4)) {
        LDABuilder<S> b;
        if (r.chance(0.5) && d.X.maxCoeff() > 0) b.initialize_topics_seeded(d.X, K, r.uni(1, 40), r.uni(0, 99));
        else { srand(r.uni(0, 1 << 30)); b.initialize_topics_random(d.V, K); }
        LDA<S> tmp = b;
        auto q = std::static_pointer_cast<parameters::ModelParameters<S>>(tmp.model_parameters());
        p->alpha = q->alpha;
        p->beta = q->beta;
    }
    auto start = clone<S>(*p);
    int W = kind == ONLINE ? 1 : r.uni(1, 3);
    LDA<S> lda(p, make_e<S>(cfg), make_m<S>(cfg, d.C), r.uni(1, 4), W);
    std::string who = fmt("%s %s K=%d workers=%d %s", sname<S>(), cfg.str().c_str(), K, W, d.desc.c_str());
    // known finding of C06: single precision, supervised E step, huge documents
    std::string prefix;
    if (kind == SLDA && cancels<S>(d.X.cast<double>().colwise().sum().maxCoeff(), p->alpha)) prefix = "float-supervised-cancellation:";
    int epoch = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e) {
        if (e->id() != "EpochProgressEvent") return;
        auto m = std::static_pointer_cast<Params<S>>(std::static_pointer_cast<events::EpochProgressEvent<S>>(e)->model_parameters());
        epoch++;
        check<S>(*m, *start, K, d.V, d.C, kind, prefix, fmt("%s epoch %d", who.c_str(), epoch));
    });
    int calls = r.uni(1, 3);
    auto X0 = d.X;
    for (int i = 0; i < calls; i++) {
        switch (r.uni(0, 2)) {
            case 0: lda.fit(d.X, d.y); break;
            case 1: lda.partial_fit(d.X, d.y); break;
            case 2: lda.partial_fit(std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y, r.uni(0, 9))); break;
        }
        check<S>(*p, *start, K, d.V, d.C, kind, prefix, fmt("%s after call %d", who.c_str(), i));
        if (r.chance(0.3)) {
            // another corpus over the same vocabulary
            for (int j = 0; j < d.D; j++) if (r.chance(0.3)) d.X.col(j) = gen_doc(r, d.V, 10);
            X0 = d.X;
        }
    }
    VF_CHECK(d.X == X0, "documents-changed", "%s: training changes the documents", who.c_str());
    run().count("epochs", epoch);
    run().distinct(mix(hash_str(who) + val(p->eta.sum() * 1e6)));
    run().sample(who);
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    for (int k = 0; k < NKINDS; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), 4000, 120000, [k](Rng &r) { one<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), 2000, 60000, [k](Rng &r) { one<float>(r, static_cast<Kind>(k)); }});
    }
    return drive(argc, argv, "C10", s);
}
