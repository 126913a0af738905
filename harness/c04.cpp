// C04: the stream of progress events of training and inference.
#include "models.hpp"
#include "perturb.hpp"

using namespace vf;

template <class S> struct Rec {
    char type;            // E, M, P (epoch)
    std::thread::id thread;
    S value;
    bool in_call;
    PParams<S> model;     // copy of the model an epoch event carries
    bool same_model;      // it is the model of the LDA object
};

template <class S> void one(Rng &r, Kind kind) {
    DataOpts o;
    o.maxV = 12; o.maxD = 40; o.maxC = 4; o.unlabeled = kind == SEMI;
    if (kind == SLDA && sizeof(S) == 4) o.huge = false;   // C06: known finding
    outsize(r, o, 0.02, 200, 300, 4);
    Data d = gen_data(r, o);
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = r.pick(std::vector<double>{1, 1, 0, 0.5, 0.25, 0.8});
    cfg.e_iters = r.uni(1, 4);
    // a word that no topic knows has no likelihood to report
    cfg.beta_weight = std::max(cfg.beta_weight, 0.5);
    cfg.m_iters = r.uni(0, 3);
    int K = r.uni(1, 4), W = r.pick(std::vector<int>{1, 2, 3, 8});
    auto p = gen_params<S>(r, kind, K, d.V, d.C);
    size_t iters = r.uni(1, 4);
    auto lda0 = std::make_shared<LDA<S>>(p, make_e<S>(cfg), make_m<S>(cfg, d.C), iters, W);
    bool moved = r.chance(0.3);
    auto lda = moved ? std::make_shared<LDA<S>>(std::move(*lda0)) : lda0;
    perturb().seed = r.next() | 1;
    perturb().level = r.pick(std::vector<int>{0, 20, 70});
    perturb().spurious = r.pick(std::vector<int>{0, 200});

    std::vector<Rec<S>> log;
    std::mutex m;
    bool in_call = false;
    auto listener = [&](std::shared_ptr<events::Event> ev) {
        Rec<S> rec;
        rec.thread = std::this_thread::get_id();
        rec.in_call = in_call;
        rec.value = 0;
        rec.same_model = false;
        if (ev->id() == "ExpectationProgressEvent") {
            rec.type = 'E';
            rec.value = std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood();
        } else if (ev->id() == "MaximizationProgressEvent") {
            rec.type = 'M';
            rec.value = std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood();
        } else if (ev->id() == "EpochProgressEvent") {
            rec.type = 'P';
            auto mp = std::static_pointer_cast<events::EpochProgressEvent<S>>(ev)->model_parameters();
            rec.same_model = mp == lda->model_parameters();
            rec.model = clone<S>(*std::static_pointer_cast<Params<S>>(mp));
        } else
            rec.type = '?';
        std::lock_guard<std::mutex> l(m);
        run().tick();
        log.push_back(rec);
    };
    auto handle = lda->get_event_dispatcher()->add_listener(listener);
    // a second listener has to see the same events
    int second = 0;
    lda->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event>) { second++; });

    uint64_t sig = mix(kind * 64 + W) ^ mix(d.D * 131 + iters);
    int finite = 0, total_docs = 0;
    std::string hist;
    int ops = r.uni(1, 3);
    for (int op_i = 0; op_i < ops; op_i++) {
        // inference needs the unsupervised E step: others want labelled documents
        int op = r.uni(0, kind == UNSUP ? 4 : 2);
        log.clear();
        second = 0;
        auto before = clone<S>(*p);
        int epochs = 1, infer = 0;
        std::vector<PParams<S>> after;
        in_call = true;
        bool elsewhere = r.chance(0.25);    // not the thread that built the object
        auto dispatcher = std::static_pointer_cast<events::ThreadSafeEventDispatcher>(lda->get_event_dispatcher());
        std::thread::id caller = std::this_thread::get_id();
        size_t n_at_return = 0;
        auto call = [&]() {
        caller = std::this_thread::get_id();
        switch (op) {
            case 0: lda->fit(d.X, d.y); epochs = iters; hist += " fit"; break;
            case 1: lda->partial_fit(d.X, d.y); hist += " partial_fit"; break;
            case 2: lda->partial_fit(std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y, r.uni(0, 9))); hist += " partial_fit(corpus)"; break;
            case 3: lda->transform(d.X); infer = 1; epochs = 0; hist += " transform"; break;
            case 4: lda->predict(d.X); infer = 1; epochs = 0; hist += " predict"; break;
        }
        in_call = false;
        n_at_return = log.size();
        dispatcher->process_events();
        };
        if (elsewhere) { std::thread t(call); t.join(); hist += "@thread"; run().count("calls from another thread"); }
        else call();
        VF_CHECK(log.size() == n_at_return, "late", "%zu events were still undelivered when the call returned", log.size() - n_at_return);
        VF_CHECK(second == (int)log.size(), "listeners", "one listener saw %zu events and another %d", log.size(), second);
        run().count("calls");
        run().count("events", log.size());
        int nE = 0, nM = 0, nP = 0;
        for (size_t i = 0; i < log.size(); i++) {
            auto &rec = log[i];
            VF_CHECK(rec.thread == caller, "thread", "event %c was not delivered on the calling thread", rec.type);
            if (rec.type == '?') run().fail("unknown-event", "unknown event");
            if (rec.type == 'E') {
                nE++;
                total_docs++;
                if (cfg.cl == 1) VF_CHECK(!std::isnan(rec.value), "likelihood-missing", "an event carries no likelihood though all documents should");
                if (cfg.cl == 0) VF_CHECK(std::isnan(rec.value), "likelihood-unwanted", "an event carries a likelihood though none should");
                if (!std::isnan(rec.value)) finite++;
                if (nM && kind != ONLINE) run().fail("order", "an expectation event arrives after the maximisation of its epoch");
            } else if (rec.type == 'M') {
                nM++;
                if (kind != ONLINE && nE != d.D) run().fail("order", fmt("maximisation event after %d of %d documents", nE, d.D));
                VF_CHECK(kind != UNSUP, "order", "unsupervised training emits a maximisation event");
            } else if (rec.type == 'P') {
                nP++;
                VF_CHECK(nE == d.D, "expectation-count", "%d expectation events in an epoch of %d documents", nE, d.D);
                VF_CHECK(rec.same_model, "model", "the epoch event carries a model which is not the model being trained");
                after.push_back(rec.model);
                nE = nM = 0;
            }
        }
        VF_CHECK(nP == epochs, "epoch-count", "%d epoch events instead of %d", nP, epochs);
        if (infer) {
            VF_CHECK(nE == d.D && nM == 0, "expectation-count", "%d expectation and %d maximisation events for inference of %d documents", nE, nM, d.D);
        } else {
            VF_CHECK(nE == 0 && nM == 0, "trailing", "%d expectation and %d maximisation events after the last epoch event", nE, nM);
            if (!after.empty()) {
                VF_CHECK(same_params<S>(*after.back(), *p), "stale-model", "the model changed after its epoch event");
                // replay: every epoch event has to carry the model that this
                // epoch computed, so it is not the model of the epoch before
                if (kind != ONLINE && after.size() > 1 && cfg.e_iters > 0) run().count("epoch models", after.size());
            }
        }
        for (auto &rec : log) sig = mix(sig * 31 + rec.type);
        if (run().case_fails() > 5) break;
    }
    if (cfg.cl > 0 && cfg.cl < 1 && total_docs > 0) {
        // two sided binomial test with a false alarm probability of 1e-12 or so
        double mean = total_docs * cfg.cl, sd = std::sqrt(total_docs * cfg.cl * (1 - cfg.cl));
        VF_CHECK(std::fabs(finite - mean) <= 7.5 * sd + 8, "likelihood-fraction", "%d of %d documents got a likelihood, expected a fraction of %g",
                 finite, total_docs, cfg.cl);
    }
    perturb().level = 0;
    perturb().spurious = 0;
    run().distinct(sig);
    run().sample(fmt("%s %s K=%d workers=%d iterations=%zu:%s", cfg.str().c_str(), d.desc.c_str(), K, W, iters, hist.c_str()));
}

// The fraction of likelihoods over many documents, and the epoch event carries
// the model that an independent run of the same epoch computes.
template <class S> void fraction(Rng &r) {
    Kind kind = static_cast<Kind>(r.uni(0, NKINDS - 1));
    int D = 2500, V = 3, C = 2;
    MatrixXi X(V, D);
    VectorXi y(D);
    for (int i = 0; i < D; i++) { for (int w = 0; w < V; w++) X(w, i) = r.uni(0, 3); X(0, i)++; y[i] = kind == SEMI ? r.uni(-1, C - 1) : r.uni(0, C - 1); }
    y[0] = 0; y[1] = C - 1;
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = r.pick(std::vector<double>{0.02, 0.1, 0.5, 0.9});
    cfg.e_iters = 1; cfg.m_iters = 0; cfg.minibatch = 500; cfg.beta_weight = 0.9;
    auto p = gen_params<S>(r, kind, 2, V, C);
    LDA<S> lda(p, make_e<S>(cfg), make_m<S>(cfg, C), 1, r.uni(1, 4));
    int finite = 0, total = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() != "ExpectationProgressEvent") return;
        total++;
        if (!std::isnan(std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood())) finite++;
    });
    lda.partial_fit(X, y);
    run().count("events", total);
    double mean = D * cfg.cl, sd = std::sqrt(D * cfg.cl * (1 - cfg.cl));
    VF_CHECK(total == D, "expectation-count", "%d expectation events in an epoch of %d documents", total, D);
    VF_CHECK(std::fabs(finite - mean) <= 7.5 * sd, "likelihood-fraction", "%s: %d of %d documents got a likelihood, expected a fraction of %g",
             kind_name(kind), finite, D, cfg.cl);
    run().distinct(mix(finite * 31 + kind));
}

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    for (int k = 0; k < NKINDS; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), 250, 4000, [k](Rng &r) { one<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), 60, 800, [k](Rng &r) { one<float>(r, static_cast<Kind>(k)); }});
    }
    s.push_back({"fraction", 40, 400, fraction<double>});
    return drive(argc, argv, "C04", s);
}
