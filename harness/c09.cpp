// C09: the batch model update against reference computations from exactly the
// documents of the epoch; the logistic class parameters through the events.
#include "ref.hpp"

using namespace vf;

namespace {

template <class S> void one(Rng &r, Kind kind, bool real_inference) {
    int V = r.uni(1, r.chance(0.02) ? 300 : 12), K = r.uni(1, r.chance(0.02) ? 40 : 6), C = r.uni(1, r.chance(0.02) ? r.pick(std::vector<int>{20, 20, 400}) : 5);
    int minD = 1, maxD = r.chance(0.02) ? 150 : 15;
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 0;
    cfg.m_iters = r.uni(0, 12);
    bool vast = sizeof(S) == 8 && r.chance(0.001), wide = vast && r.chance(0.5);
    if (vast) {
        K = r.uni(1, 3);
        C = r.uni(1, 3);
        cfg.m_iters = r.uni(0, 3);
        if (wide) { V = r.pick(std::vector<int>{r.uni(4097, 9000), kind == SLDA || instrumented ? 4100 : r.uni(65537, 70000)}); maxD = 2; }
        else { V = r.uni(1, 3); minD = 1025; maxD = 3000; }
        run().count(wide ? "updates of thousands of words" : "updates from thousands of documents");
    }
    auto p = gen_params<S>(r, kind, K, V, C);
    auto m = make_m<S>(cfg, C);
    auto e = make_e<S>(cfg);
    std::vector<double> ev;
    m->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> x) {
        if (x->id() == "MaximizationProgressEvent")
            ev.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(x)->likelihood());
    });
    int epochs = vast ? r.uni(1, 2) : r.uni(1, 4);
    for (int epoch = 0; epoch < epochs; epoch++) {
        DataOpts o;
        o.minV = o.maxV = V; o.minD = minD; o.maxD = maxD; o.minC = o.maxC = C; o.unlabeled = kind == SEMI;
        o.huge = !vast && r.chance(0.3) && !(kind == SLDA && sizeof(S) == 4);
        Data d = gen_data(r, o);
        std::string who = fmt("%s %s K=%d %s epoch %d", sname<S>(), cfg.str().c_str(), K, d.desc.c_str(), epoch);
        std::vector<float> pri(C, 1.0f / C);
        auto corpus = std::make_shared<StubCorpus>(d.D, pri);
        auto before = clone<S>(*p);
        LVec alpha = to_ld(p->alpha);
        LMat b = LMat::Zero(K, V), h = LMat::Zero(K, C);
        ld logpy = 0, logpy_scale = 1;
        std::vector<LVec> zb;
        std::vector<LMat> var;
        std::vector<int> lab;
        for (int i = 0; i < d.D; i++) {
            VectorXi x = d.X.col(i);
            auto doc = make_doc(x, d.y[i], corpus);
            std::shared_ptr<parameters::Parameters> vp;
            if (real_inference) vp = e->doc_e_step(doc, p);
            else {
                Mat<S> phi(K, V);
                bool peaked = r.chance(0.3);
                for (int n = 0; n < V; n++) {
                    for (int k = 0; k < K; k++) phi(k, n) = peaked && !r.chance(0.2) ? 1e-6 : r.real(0.001, 1);
                    phi.col(n) /= phi.col(n).sum();
                }
                Vec<S> gamma = p->alpha;
                for (int n = 0; n < V; n++) if (x[n]) gamma += phi.col(n) * S(x[n]);
                if (kind == CORR) {
                    Vec<S> tau(V);
                    for (int n = 0; n < V; n++) tau[n] = r.real(0.01, 1);
                    tau /= tau.sum();
                    vp = std::make_shared<CVP<S>>(gamma, phi, tau);
                } else vp = std::make_shared<VP<S>>(gamma, phi);
            }
            auto v = std::static_pointer_cast<VP<S>>(vp);
            LMat phi = to_ld(v->phi);
            LVec tau = LVec::Ones(V);
            if (kind == CORR) tau = to_ld(std::static_pointer_cast<CVP<S>>(vp)->tau);
            LMat ps = LMat::Zero(K, V);
            for (int n = 0; n < V; n++) if (x[n]) ps.col(n) = phi.col(n) * ((ld)x[n] * tau[n]);
            b += ps;
            if (class_distribution(kind)) {
                LVec s = ps.rowwise().sum();
                h.col(d.y[i]) += s;
                for (int k = 0; k < K; k++) {
                    ld t = s[k] * logl(before->eta(k, d.y[i]));
                    logpy += t;
                    logpy_scale += fabsl(t);
                }
            } else if (d.y[i] >= 0) {
                LVec z = to_ld(v->gamma) - alpha;
                ld N = x.sum();
                // (words that no topic knows count for nothing)
                ld zs = z.sum();
                if (zs > 0) z /= zs;
                zb.push_back(z);
                LMat q = ps;
                if (N > 0) q /= N;
                var.push_back(q * q.transpose());
                lab.push_back(d.y[i]);
            }
            Mat<S> phi0 = v->phi;
            Vec<S> gamma0 = v->gamma;
            m->doc_m_step(doc, vp, p);
            VF_CHECK(same_bits(phi0, v->phi) && same_bits(gamma0, v->gamma), "inputs-changed", "%s: the update changes the inferred parameters", who.c_str());
            VF_REQUIRE(same_params<S>(*p, *before), "early-update", "%s: the model changes before the end of the epoch", who.c_str());
        }
        ev.clear();
        m->m_step(p);
        VF_CHECK(same_bits(p->alpha, before->alpha), "alpha", "%s: the update changes the prior", who.c_str());
        VF_REQUIRE(p->beta.rows() == K && p->beta.cols() == V && p->eta.rows() == K && p->eta.cols() == C, "shape", "%s: beta %ldx%ld eta %ldx%ld", who.c_str(),
                   (long)p->beta.rows(), (long)p->beta.cols(), (long)p->eta.rows(), (long)p->eta.cols());
        double rt = 50 * eps<S>() * (1 + (d.D + V) / 4.0);
        for (int k = 0; k < K; k++) {
            ld s = b.row(k).sum();
            if (s > 0 && s < (sizeof(S) == 4 ? 1e-30L : 1e-290L)) continue;   // denormal numbers
            for (int n = 0; n < V; n++) {
                ld want = s > 0 ? b(k, n) / s : 0;
                // a topic without words: nothing to normalise
                VF_REQUIRE(fabsl(p->beta(k, n) - want) <= rt * (want + 1e-3L), "topics", "%s (%d documents): beta(%d,%d) is %.10g, the expected counts give %.10Lg", who.c_str(), d.D, k, n,
                           (double)p->beta(k, n), want);
            }
        }
        run().count("topic updates", K);
        if (class_distribution(kind)) {
            for (int k = 0; k < K; k++) {
                ld s = 0;
                for (int c = 0; c < C; c++) s += h(k, c) + ((S)cfg.mu - 1);
                for (int c = 0; c < C; c++) {
                    ld want = (h(k, c) + ((S)cfg.mu - 1)) / s;
                    VF_REQUIRE(fabsl(p->eta(k, c) - want) <= 4 * rt * (want + 1e-3L), "class-distributions", "%s: eta(%d,%d) is %.10g, the smoothed expected counts give %.10Lg", who.c_str(), k, c,
                               (double)p->eta(k, c), want);
                }
            }
            VF_REQUIRE(ev.size() == 1, "events", "%s: %zu maximisation events", who.c_str(), ev.size());
            VF_CHECK(fabsl(ev[0] - logpy) <= 4 * rt * logpy_scale, "event-value", "%s: reported %.10g, the expected log probability of the classes is %.10Lg", who.c_str(), ev[0], logpy);
            run().count("class distribution updates");
        } else if (kind == UNSUP || lab.empty()) {
            VF_CHECK(same_bits(p->eta, before->eta), "eta", "%s: the update changes the class weights", who.c_str());
            VF_CHECK(ev.empty(), "events", "%s: %zu maximisation events", who.c_str(), ev.size());
        } else {
            LMat Z(K, lab.size());
            VectorXi y(lab.size());
            for (size_t i = 0; i < lab.size(); i++) { Z.col(i) = zb[i]; y[i] = lab[i]; }
            LVec w = ref_class_weights(y);
            auto f = [&](const Mat<S> &eta) { return (double)ref_logistic(Z, y, w, (S)cfg.L, to_ld(eta), kind == SLDA ? &var : nullptr); };
            double f0 = f(before->eta), f1 = f(p->eta);
            double tol = (sizeof(S) == 4 ? 1e-4 : 1e-10) * (1 + std::fabs(f0));
            VF_REQUIRE(all_finite(p->eta), "eta-finite", "%s: eta %s", who.c_str(), show(p->eta).c_str());
            VF_CHECK(f1 <= f0 + tol, "objective-worse", "%s: the objective goes from %.10g to %.10g", who.c_str(), f0, f1);
            VF_REQUIRE(!ev.empty(), "events", "%s: no maximisation event", who.c_str());
            VF_CHECK(ev.size() <= cfg.m_iters + 1, "iteration-limit", "%s: %zu maximisation events with a limit of %zu iterations", who.c_str(), ev.size(), cfg.m_iters);
            VF_CHECK(std::fabs(-ev.front() - f0) <= tol, "event-value", "%s: first reported objective %.10g, the objective before the update is %.10g", who.c_str(), -ev.front(), f0);
            VF_CHECK(std::fabs(-ev.back() - f1) <= tol, "event-value", "%s: last reported objective %.10g, the objective of the new parameters is %.10g", who.c_str(), -ev.back(), f1);
            for (size_t i = 1; i < ev.size(); i++)
                VF_CHECK(ev[i] >= ev[i - 1] - tol * 1e-2, "event-order", "%s: reported improvement %zu goes from %.10g to %.10g", who.c_str(), i, ev[i - 1], ev[i]);
            if (ev.size() == 1) VF_CHECK(same_bits(p->eta, before->eta), "event-missing", "%s: class weights change without an event", who.c_str());
            if (ev.size() < cfg.m_iters + 1 && ev.size() > 1) {
                // stopped early: must have been the tolerance
                double imp = (-ev[ev.size() - 2] - -ev.back()) / -ev.back();
                VF_CHECK(!(imp > cfg.m_tol + (sizeof(S) == 4 ? 1e-4 : 1e-9)), "early-stop", "%s: stopped after %zu iterations while improving by %.6g", who.c_str(), ev.size() - 1, imp);
                run().count("optimisations stopped by the tolerance");
            }
            // ... and one that is not improving has to stop
            for (size_t i = 1; i + 1 < ev.size(); i++) {
                double imp = (-ev[i - 1] - -ev[i]) / -ev[i];
                VF_CHECK(!(imp < cfg.m_tol - (sizeof(S) == 4 ? 1e-4 : 1e-9)), "late-stop", "%s: went on after iteration %zu improved by only %.6g", who.c_str(), i, imp);
            }
            if (ev.size() == cfg.m_iters + 1) run().count("optimisations stopped by the iteration limit");
            run().count("logistic updates");
            run().maximum("relative improvement of the objective", (f0 - f1) / (1e-9 + std::fabs(f0)));
        }
        run().distinct(mix(hash_str(who) + val((double)b.sum() * 1000 + (double)p->eta.sum() * 1e6)));
        run().sample(who);
        if (run().case_fails()) throw Abort();
        if (!all_finite(p->eta) || !all_finite(p->beta)) return;
    }
}

// the result does not depend on the order of the documents nor on earlier epochs
template <class S> void order(Rng &r, Kind kind) {
    int V = r.uni(1, r.chance(0.02) ? 300 : 12), K = r.uni(1, r.chance(0.02) ? 40 : 6), C = r.uni(1, r.chance(0.02) ? r.pick(std::vector<int>{20, 20, 400}) : 5);
    int maxD = r.chance(0.02) ? 150 : 15;
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 0;
    cfg.m_iters = r.uni(0, 3);
    cfg.m_tol = -1e9;
    auto p = gen_params<S>(r, kind, K, V, C);
    auto e = make_e<S>(cfg);
    DataOpts o;
    o.minV = o.maxV = V; o.minD = 1; o.maxD = maxD; o.minC = o.maxC = C; o.huge = false; o.unlabeled = kind == SEMI;
    Data d = gen_data(r, o);
    std::vector<float> pri(C, 1.0f / C);
    auto corpus = std::make_shared<StubCorpus>(d.D, pri);
    std::vector<std::shared_ptr<corpus::Document>> docs;
    std::vector<std::shared_ptr<parameters::Parameters>> vps;
    for (int i = 0; i < d.D; i++) {
        docs.push_back(make_doc(d.X.col(i), d.y[i], corpus));
        vps.push_back(e->doc_e_step(docs.back(), p));
    }
    auto update = [&](const std::vector<int> &idx, bool history) {
        auto m = make_m<S>(cfg, C);
        if (history) {
            auto q = clone<S>(*p);
            for (int j = r.uni(0, 2 * d.D); j >= 0; j--) {
                int i = r.uni(0, d.D - 1);
                m->doc_m_step(docs[i], vps[i], q);
            }
            m->m_step(q);
        }
        auto q = clone<S>(*p);
        for (int i : idx) m->doc_m_step(docs[i], vps[i], q);
        m->m_step(q);
        return q;
    };
    std::vector<int> idx;
    for (int i = 0; i < d.D; i++) idx.push_back(i);
    auto a = update(idx, false);
    auto h = update(idx, true);
    std::string who = fmt("%s %s K=%d %s", sname<S>(), cfg.str().c_str(), K, d.desc.c_str());
    double rt = 50 * eps<S>() * (1 + d.D / 4.0);
    VF_CHECK(rel_diff(h->beta, a->beta, 1e-3) <= rt, "history", "%s: an earlier epoch changes the topics", who.c_str());
    VF_CHECK(rel_diff(h->eta, a->eta, 1e-2) <= 10 * rt, "history", "%s: an earlier epoch changes the class parameters", who.c_str());
    r.shuffle(idx.begin(), idx.end());
    auto b = update(idx, false);
    VF_CHECK(rel_diff(b->beta, a->beta, 1e-3) <= rt, "order", "%s: the order of the documents changes the topics", who.c_str());
    // a step of the line search can hinge on rounding
    bool logistic = !class_distribution(kind) && kind != UNSUP;
    if (!logistic || cfg.m_iters == 0 || d.D == 1) VF_CHECK(rel_diff(b->eta, a->eta, 1e-2) <= 10 * rt, "order", "%s: the order of the documents changes the class parameters", who.c_str());
    run().count("orders and histories compared", 2);
    run().distinct(mix(hash_str(who) + val(a->beta.sum() * 1000 + a->eta.sum() * 1e6)));
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(64);
    auto add = [&](std::string n, long q, long t, std::function<void(Rng &)> f) {
        names.push_back(n);
        s.push_back({names.back().c_str(), q, t, f});
    };
    for (int k = 0; k < ONLINE; k++) {
        Kind kind = static_cast<Kind>(k);
        std::string n = kind_name(k);
        add("double-" + n, 8000, 300000, [kind](Rng &r) { one<double>(r, kind, false); });
        add("float-" + n, 4000, 150000, [kind](Rng &r) { one<float>(r, kind, false); });
        add("double-inferred-" + n, 8000, 300000, [kind](Rng &r) { one<double>(r, kind, true); });
        add("float-inferred-" + n, 4000, 150000, [kind](Rng &r) { one<float>(r, kind, true); });
        add("order-double-" + n, 4000, 150000, [kind](Rng &r) { order<double>(r, kind); });
        add("order-float-" + n, 2000, 75000, [kind](Rng &r) { order<float>(r, kind); });
    }
    return drive(argc, argv, "C09", s);
}
