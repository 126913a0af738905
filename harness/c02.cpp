// C02: data races. ThreadSanitizer is the oracle; this is the workload.
#include "models.hpp"

using namespace vf;

static void jitter(Rng &r) {
    int a = r.uni(0, 9);
    if (a == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.uni(1, 300)));
    else if (a < 4) std::this_thread::yield();
}

template <class S> void train(Rng &r, Kind kind, bool outside) {
    DataOpts o;
    o.minD = 4; o.maxD = 40; o.maxV = 12; o.maxC = 4; o.unlabeled = kind == SEMI; o.huge = false;
    Data d = gen_data(r, o);
    Cfg cfg = gen_cfg(r, kind);
    cfg.e_iters = r.uni(1, 4);
    cfg.m_iters = r.uni(0, 3);
    cfg.cl = r.pick(std::vector<double>{0, 0.5, 1});
    int K = r.uni(1, 5), W = r.uni(2, 8);
    auto p = gen_params<S>(r, kind, K, d.V, d.C);
    LDA<S> lda(p, make_e<S>(cfg), make_m<S>(cfg, d.C), r.uni(1, 3), W);
    int events = 0;
    std::map<std::string, int> ids;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        events++;
        run().tick();
        ids[ev->id()]++;
        if (ev->id() == "EpochProgressEvent") {
            // what a snapshot does: read the model
            auto m = std::static_pointer_cast<Params<S>>(std::static_pointer_cast<events::EpochProgressEvent<S>>(ev)->model_parameters());
            volatile S x = m->beta.sum() + m->eta.sum();
            (void)x;
        }
    });
    // other threads that use the dispatcher while the model trains
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    std::atomic<int> ext{0};   // only touched relaxed
    if (outside) {
        for (int i = 0; i < 2; i++) {
            uint64_t s = r.next();
            ts.emplace_back([&, s] {
                Rng q(s);
                std::vector<std::shared_ptr<events::EventListenerInterface>> mine;
                while (!stop.load(std::memory_order_relaxed) && ext.load(std::memory_order_relaxed) < 400) {
                    int a = q.uni(0, 3);
                    if (a == 0)
                        mine.push_back(lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) { volatile size_t n = ev->id().size(); (void)n; }));
                    else if (a == 1 && !mine.empty()) {
                        lda.get_event_dispatcher()->remove_listener(mine.back());
                        mine.pop_back();
                    } else
                        lda.get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S>>(S(1));
                    ext.fetch_add(1, std::memory_order_relaxed);
                    jitter(q);
                }
                for (auto &l : mine) lda.get_event_dispatcher()->remove_listener(l);
            });
        }
    }
    std::string hist;
    for (int i = 0, calls = r.uni(1, 3); i < calls; i++) {
        switch (r.uni(0, kind == UNSUP ? 5 : 2)) {
            case 0: lda.fit(d.X, d.y); hist += " fit"; break;
            case 1: lda.partial_fit(d.X, d.y); hist += " partial_fit"; break;
            case 2: lda.partial_fit(std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y, 1)); hist += " partial_fit(corpus)"; break;
            case 3: lda.fit(d.X); hist += " fit(X)"; break;
            case 4: lda.transform(d.X); hist += " transform"; break;
            case 5: lda.transform_predict(d.X); hist += " transform_predict"; break;
        }
    }
    stop = true;
    for (auto &t : ts) t.join();
    run().count("events", events);
    run().count("documents", d.D);
    run().count(std::string("model:") + kind_name(kind));
    run().count("dispatcher calls from other threads", ext);
    run().distinct(mix(kind * 1009 + W * 31 + d.D) ^ hash_str(hist + sname<S>() + cfg.str()));
    run().sample(fmt("%s K=%d workers=%d %s:%s", cfg.str().c_str(), K, W, d.desc.c_str(), hist.c_str()));
}

template <class S> void batch(Rng &r) { train<S>(r, static_cast<Kind>(r.uni(0, CORR)), r.chance(0.3)); }
template <class S> void online(Rng &r) { train<S>(r, ONLINE, false); }

// Independent models in different threads must not share anything.
template <class S> void independent(Rng &r) {
    int T = r.uni(2, 4);
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++) {
        uint64_t s = r.next();
        ts.emplace_back([s] {
            Rng q(s);
            Kind kind = static_cast<Kind>(q.uni(0, CORR));
            DataOpts o;
            o.maxD = 12; o.maxV = 8; o.maxC = 3; o.huge = false;
            Data d = gen_data(q, o);
            Cfg cfg = gen_cfg(q, kind);
            cfg.e_iters = 2; cfg.m_iters = 2;
            LDABuilder<S> b;
            b.set_iterations(2).set_workers(q.uni(1, 2)).set_e(make_e<S>(cfg)).set_m(make_m<S>(cfg, d.C));
            if (q.chance(0.5)) b.initialize_topics_seeded(d.X, 3, 5, q.uni(0, 9));
            else b.initialize_topics_random(d.V, 3, q.uni(0, 9));
            if (class_distribution(kind)) b.initialize_eta_uniform(d.C); else b.initialize_eta_zeros(d.C);
            LDA<S> lda = b;
            int n = 0;
            lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event>) { n++; run().tick(); });
            lda.fit(d.X, d.y);
            LDA<S> inf(lda.model_parameters(), std::make_shared<em::UnsupervisedEStep<S>>(2, 1e-2, 1, 0), std::make_shared<em::UnsupervisedMStep<S>>(), 1, 2);
            inf.predict(d.X);
            run().count("events", n);
        });
    }
    for (auto &t : ts) t.join();
    run().distinct(r.next());
}

// One E step used by many threads at once, as the workers do, with documents
// of one shared corpus.
template <class S> void shared_step(Rng &r) {
    Kind kind = static_cast<Kind>(r.uni(0, CORR));
    DataOpts o;
    o.minD = 4; o.maxD = 16; o.maxV = 10; o.unlabeled = kind == SEMI; o.huge = false;
    Data d = gen_data(r, o);
    Cfg cfg = gen_cfg(r, kind);
    cfg.e_iters = 3;
    cfg.cl = r.pick(std::vector<double>{0.5, 1});
    auto e = make_e<S>(cfg);
    e->set_event_dispatcher(std::make_shared<events::ThreadSafeEventDispatcher>());
    auto p = gen_params<S>(r, kind, 3, d.V, d.C);
    auto c = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
    c->shuffle();
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) {
        uint64_t s = r.next();
        ts.emplace_back([&, s] {
            Rng q(s);
            for (int i = 0; i < 10; i++) { e->doc_e_step(c->at(q.uni(0, d.D - 1)), p); run().tick(); jitter(q); }
        });
    }
    for (auto &t : ts) t.join();
    run().count("documents", 40);
    run().distinct(r.next());
}

// dispatcher: producers, adders and removers against one processing thread
static void dispatcher(Rng &r) {
    bool same = r.chance(0.5);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    std::shared_ptr<events::EventDispatcherInterface> iface = disp;
    std::atomic<int> done{0};
    long seen = 0;
    iface->add_listener([&](std::shared_ptr<events::Event>) { seen++; });
    std::vector<std::thread> ts;
    int T = r.uni(2, 5);
    for (int t = 0; t < T; t++) {
        uint64_t s = r.next();
        ts.emplace_back([&, s] {
            Rng q(s);
            std::vector<std::shared_ptr<events::EventListenerInterface>> mine;
            for (int i = 0; i < 60; i++) {
                int a = q.uni(0, 5);
                if (a == 0) mine.push_back(iface->add_listener([&seen](std::shared_ptr<events::Event>) { seen++; }));
                else if (a == 1 && !mine.empty()) { iface->remove_listener(mine.back()); mine.pop_back(); }
                else iface->dispatch<events::ExpectationProgressEvent<double>>(double(i));
                jitter(q);
            }
            for (auto &l : mine) iface->remove_listener(l);
            done++;
        });
    }
    while (done < T) {
        if (r.chance(0.3)) iface->dispatch<events::MaximizationProgressEvent<double>>(1.0);
        disp->process_events();
        run().tick();
        jitter(r);
    }
    for (auto &t : ts) t.join();
    disp->process_events();
    run().count("events", seen);
    run().count("dispatcher calls from other threads", T * 60);
    run().distinct(r.next());
}

int main(int argc, char **argv) {
    bool only_online = false;
    if (argc > 1 && std::string(argv[1]) == "online") { only_online = true; argv++; argc--; }
    Options o;
    o.limit_s = 200;
    if (only_online)
        return drive(argc, argv, "C02", {{"online-double", 200, 4000, online<double>}, {"online-float", 60, 1000, online<float>}}, o);
    return drive(argc, argv, "C02", {
        {"batch-double", 4000, 80000, batch<double>},
        {"batch-float", 1600, 32000, batch<float>},
        {"independent", 480, 12000, independent<double>},
        {"independent-float", 160, 4000, independent<float>},
        {"shared-step", 1200, 24000, shared_step<double>},
        {"shared-step-float", 400, 8000, shared_step<float>},
        {"dispatcher", 1600, 32000, dispatcher},
    }, o);
}
