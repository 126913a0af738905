// C20: whatever a caller does within the domain, memory is used correctly.
// Histories that the other monitors do not have: objects moved, copied models,
// destruction in any order, results kept for long, corpora of changing sizes,
// models through files. Under AddressSanitizer/UBSan the sanitizer judges;
// under valgrind the results are asked whether every bit of them is defined.
#include <valgrind/memcheck.h>

#include <list>

#include "applications/lda_io.hpp"
#include "applications/EpochProgress.hpp"
#include "applications/ExpectationProgress.hpp"
#include "applications/MaximizationProgress.hpp"
#include "applications/SnapshotEvery.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "models.hpp"

using namespace vf;

namespace {

bool defined_bytes(const void *p, size_t n) { return n == 0 || VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0; }
template <class M> void defined(const M &m, const char *what, const std::string &who) {
    VF_CHECK(defined_bytes(m.data(), sizeof(typename M::Scalar) * m.size()), "undefined", "%s: %s is not completely initialised", who.c_str(), what);
    // read every value: an array that is shorter than it says is noticed here
    volatile double s = 0;
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) s = s + static_cast<double>(m(i, j));
    run().count("result arrays read");
}
template <class S> void defined(const Params<S> &p, const std::string &who) {
    defined(p.alpha, "alpha", who);
    defined(p.beta, "beta", who);
    defined(p.eta, "eta", who);
}

bool in_valgrind() { return RUNNING_ON_VALGRIND; }

// everything a listener may do with an event
template <class S> void look_at(const std::shared_ptr<events::Event> &e, const std::string &who) {
    S v = 0;
    if (e->id() == "ExpectationProgressEvent") v = std::static_pointer_cast<events::ExpectationProgressEvent<S>>(e)->likelihood();
    else if (e->id() == "MaximizationProgressEvent") v = std::static_pointer_cast<events::MaximizationProgressEvent<S>>(e)->likelihood();
    else if (e->id() == "EpochProgressEvent") {
        auto m = std::static_pointer_cast<Params<S>>(std::static_pointer_cast<events::EpochProgressEvent<S>>(e)->model_parameters());
        defined(m->beta, "beta of an epoch event", who);
    }
    VF_CHECK(defined_bytes(&v, sizeof v), "undefined", "%s: the value of %s is not initialised", who.c_str(), e->id().c_str());
    run().count("events looked at");
}

struct Counting : events::EventListenerInterface {
    long n = 0;
    void on_event(std::shared_ptr<events::Event> e) override { n += e->id().size(); }
};

template <class S> struct Kept {   // things kept beyond the objects they come from
    std::vector<std::shared_ptr<events::Event>> events;
    std::vector<std::shared_ptr<events::EventDispatcherInterface>> dispatchers;
    std::vector<PParams<S>> params;
    std::vector<std::shared_ptr<corpus::Corpus>> corpora;
    std::vector<std::shared_ptr<corpus::Document>> documents;
    std::vector<Mat<S>> results;
};

template <class S> void library(Rng &r, Kind kind) {
    bool vg = in_valgrind();
    int V = r.pick(std::vector<int>{1, 2, 5, 13, 30}), C = r.uni(1, 5), K = r.pick(std::vector<int>{1, 2, 3, 7, vg ? 9 : 40});
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = r.pick(std::vector<double>{0, 0.5, 1});
    cfg.e_iters = r.uni(1, 6);
    cfg.m_iters = r.pick(std::vector<int>{0, 1, 5});
    if (kind == ONLINE && r.chance(0.4)) for (int c = 0; c < C; c++) cfg.class_weights.push_back(r.real(0, 3));
    ParamOpts po;
    po.zero_words = r.pick(std::vector<double>{0, 0, 0.3});
    po.zero_entries = r.pick(std::vector<double>{0, 0, 0.4});
    auto p = gen_params<S>(r, kind, K, V, C, po);
    auto draw = [&]() {
        DataOpts o;
        o.minV = o.maxV = V; o.maxD = vg ? 6 : 25; o.minC = o.maxC = C; o.unlabeled = kind == SEMI;
        Data d = gen_data(r, o);
        for (int i = 0; i < d.D; i++) while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
        return d;
    };
    std::string who = fmt("%s %s K=%d V=%d C=%d", sname<S>(), cfg.str().c_str(), K, V, C), hist;
    Kept<S> kept;
    auto e_step = make_e<S>(cfg);
    auto m_step = make_m<S>(cfg, C);
    std::unique_ptr<LDA<S>> lda(new LDA<S>(p, e_step, m_step, r.uni(1, 3), r.uni(1, 4)));
    e_step.reset();
    if (r.chance(0.5)) m_step.reset();
    std::unique_ptr<LDA<S>> reader;
    auto counting = std::make_shared<Counting>();
    auto listen = [&]() {
        Kept<S> *k = &kept;
        std::string w = who;
        lda->get_event_dispatcher()->add_listener([k, w](std::shared_ptr<events::Event> e) {
            look_at<S>(e, w);
            if (k->events.size() < 200) k->events.push_back(e);
        });
    };
    listen();
    // a corpus refers to the caller's matrices, which therefore stay where they are
    std::list<Data> store(1, draw());
    int ops = r.uni(2, vg ? 4 : 9);
    std::vector<std::pair<Mat<S>, VectorXi>> outputs;
    for (int i = 0; i < ops; i++) {
        int op = r.uni(0, 13);
        hist += char('a' + op);
        Data &d = store.back();
        switch (op) {
            case 0: if (kind == UNSUP) lda->fit(d.X); else lda->fit(d.X, d.y); break;
            case 1: lda->partial_fit(d.X, d.y); break;
            case 2: {
                // a corpus the caller keeps, used again later
                auto c = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y, r.uni(0, 9));
                if (r.chance(0.5)) c->shuffle();
                lda->partial_fit(c);
                kept.corpora.push_back(c);
                kept.documents.push_back(c->at(r.uni(0, d.D - 1)));
                break;
            }
            case 3: if (!kept.corpora.empty()) { auto c = r.pick(kept.corpora); c->shuffle(); lda->partial_fit(c); } break;
            case 4: store.push_back(draw()); break;
            case 5: {
                // move; the old shell is destroyed now or later
                std::unique_ptr<LDA<S>> n(new LDA<S>(std::move(*lda)));
                lda.swap(n);
                break;
            }
            case 6: {
                Cfg u = cfg;
                u.kind = UNSUP;
                reader.reset(new LDA<S>(p, make_e<S>(u), std::make_shared<em::UnsupervisedMStep<S>>(), 1, r.uni(1, 4)));
                break;
            }
            case 7: if (reader) { Mat<S> t = reader->transform(d.X); defined(t, "transform", who); kept.results.push_back(t); } break;
            case 8: if (reader) { Mat<S> t = reader->decision_function(d.X); defined(t, "decision_function", who); } break;
            case 9: if (reader) { VectorXi t = reader->predict(d.X); defined(t, "predict", who); } break;
            case 10: if (reader) { auto t = reader->transform_predict(d.X); defined(std::get<0>(t), "transform_predict", who); defined(std::get<1>(t), "transform_predict", who); } break;
            case 11: {
                auto disp = lda->get_event_dispatcher();
                kept.dispatchers.push_back(disp);
                if (r.chance(0.5)) disp->add_listener(counting); else disp->remove_listener(counting);
                break;
            }
            case 12: kept.params.push_back(clone<S>(*p)); break;
            case 13: {
                // a second object over the same model, the first one gone
                auto q = lda->template model_parameters<Params<S>>();
                lda.reset(new LDA<S>(q, make_e<S>(cfg), make_m<S>(cfg, C), r.uni(1, 2), r.uni(1, 4)));
                listen();
                break;
            }
        }
        run().tick();
    }
    defined(*p, who + " " + hist);
    run().count("operations", ops);
    // the objects go in any order, what was kept is used afterwards
    if (r.chance(0.5)) lda.reset();
    if (r.chance(0.5)) reader.reset();
    if (r.chance(0.5)) p.reset();
    for (auto &e : kept.events) look_at<S>(e, who);
    for (auto &x : kept.dispatchers) x->template dispatch<events::EpochProgressEvent<S>>(std::make_shared<Params<S>>());
    for (auto &x : kept.documents) defined(x->get_words(), "a document", who);
    for (auto &x : kept.results) defined(x, "transform", who);
    kept.corpora.clear();
    lda.reset();
    for (auto &x : kept.documents) defined(x->get_words(), "a document", who);
    run().distinct(mix(hash_str(who) + hash_str(hist)));
    run().sample(who + " calls " + hist);
}

// builders: kept, copied, used several times, outlived by what they make
template <class S> void builders(Rng &r) {
    DataOpts o;
    o.maxV = 15; o.maxD = in_valgrind() ? 5 : 12;
    Data d = gen_data(r, o);
    for (int i = 0; i < d.D; i++) while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    auto corpus = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
    std::unique_ptr<LDABuilder<S>> b(new LDABuilder<S>());
    std::string hist;
    size_t K = r.pick(std::vector<int>{1, 2, 5, 11});
    std::vector<std::unique_ptr<LDA<S>>> made;
    b->set_iterations(r.uni(1, 2)).set_workers(r.uni(0, 3));
    int n = r.uni(4, 14);
    for (int i = 0; i < n; i++) {
        int op = r.uni(0, 15);
        hist += char('a' + op);
        try { switch (op) {
            case 0: b->initialize_topics_random(d.V, K); break;
            case 1: b->initialize_topics_seeded(d.X, K, r.uni(1, 30), r.uni(0, 5)); break;
            case 2: b->initialize_topics_seeded(corpus, K, r.uni(1, 30), r.uni(0, 5)); break;
            case 3: if (!made.empty()) b->initialize_topics_from_model(r.pick(std::vector<PParams<S>>{made.back()->template model_parameters<Params<S>>()})); break;
            case 4: b->set_classic_e_step(r.uni(1, 4)).set_classic_m_step(); break;
            case 5: b->set_supervised_e_step(r.uni(1, 3), 1e-2, 2).set_supervised_m_step(3); break;
            case 6: b->set_fast_supervised_e_step(r.uni(1, 3)).set_fast_supervised_m_step(3); break;
            case 7: b->set_semi_supervised_e_step(b->get_fast_supervised_e_step(2)).set_semi_supervised_m_step(3); break;
            case 8: b->set_multinomial_supervised_e_step(2).set_multinomial_supervised_m_step(); break;
            case 9: b->set_correspondence_supervised_e_step(2).set_correspondence_supervised_m_step(); break;
            case 10: b->set_fast_supervised_e_step(2).set_fast_supervised_online_m_step(static_cast<size_t>(d.C)); break;
            case 11: b->initialize_eta_zeros(d.C); break;
            case 12: b->initialize_eta_uniform(d.C); break;
            case 13: if (!made.empty()) b->initialize_eta_from_model(made.back()->template model_parameters<Params<S>>()); break;
            case 14: { std::unique_ptr<LDABuilder<S>> c(new LDABuilder<S>(*b)); b.swap(c); break; }
            case 15:
                made.emplace_back(new LDA<S>(*b));
                run().count("models built");
                break;
        } } catch (const std::runtime_error &) { run().count("incomplete builders"); }
    }
    b.reset();
    for (auto &l : made) {
        auto p = l->template model_parameters<Params<S>>();
        if (p->eta.size() > 0 && (int)p->eta.cols() == d.C && r.chance(0.5)) l->partial_fit(d.X, d.y);
        defined(*p, "built " + hist);
    }
    run().distinct(hist + fmt("%d %zu", d.V, K));
}

// steps shared, wrapped and used on their own, before and after what was made of them is gone
template <class S> void steps(Rng &r) {
    typedef std::shared_ptr<em::EStepInterface<S>> E;
    DataOpts o;
    o.maxV = 12; o.maxD = in_valgrind() ? 4 : 8; o.unlabeled = true;
    Data d = gen_data(r, o);
    for (int i = 0; i < d.D; i++) while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    auto p = gen_params<S>(r, SEMI, r.pick(std::vector<int>{1, 2, 5}), d.V, d.C, ParamOpts());
    auto c = std::make_shared<corpus::EigenClassificationCorpus>(d.X, d.y);
    auto seen = std::make_shared<Counting>();
    Cfg sup = gen_cfg(r, r.chance(0.5) ? FSLDA : SLDA), uns = gen_cfg(r, UNSUP), m = gen_cfg(r, SEMI);
    sup.e_iters = uns.e_iters = r.uni(1, 3);
    sup.cl = uns.cl = r.pick(std::vector<double>{0, 1});
    m.m_iters = r.uni(0, 3);
    std::vector<E> s, u, semi;
    std::vector<std::unique_ptr<LDA<S>>> ldas;
    std::string hist;
    auto infer = [&](const E &e, bool supervised, bool unsupervised) {
        for (int i = 0; i < d.D; i++) {
            auto doc = c->at(i);
            int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
            if (y < 0 ? !unsupervised : !supervised) continue;
            auto vp = std::static_pointer_cast<parameters::VariationalParameters<S>>(e->doc_e_step(doc, p));
            defined(vp->gamma, "gamma", hist);
            run().count("inferences with bare steps");
        }
    };
    int n = r.uni(4, in_valgrind() ? 9 : 18);
    for (int i = 0; i < n; i++) {
        int op = r.uni(0, 11);
        hist += char('a' + op);
        switch (op) {
            case 0: s.push_back(make_e<S>(sup)); if (r.chance(0.5)) s.back()->get_event_dispatcher()->add_listener(seen); break;
            case 1: u.push_back(make_e<S>(uns)); if (r.chance(0.5)) u.back()->get_event_dispatcher()->add_listener(seen); break;
            case 2: case 3:
                if (!s.empty() && !u.empty()) {
                    semi.push_back(std::make_shared<em::SemiSupervisedEStep<S>>(r.pick(s), r.pick(u)));
                    if (r.chance(0.5)) semi.back()->get_event_dispatcher()->add_listener(seen);
                }
                break;
            case 4: if (!semi.empty()) semi.erase(semi.begin() + r.uni(0, (int)semi.size() - 1)); break;
            case 5: if (!s.empty()) s.erase(s.begin() + r.uni(0, (int)s.size() - 1)); break;
            case 6: if (!u.empty()) u.erase(u.begin() + r.uni(0, (int)u.size() - 1)); break;
            case 7: if (!s.empty()) infer(r.pick(s), true, false); break;
            case 8: if (!u.empty()) infer(r.pick(u), true, true); break;
            case 9: if (!semi.empty()) { auto e = r.pick(semi); infer(e, true, true); e->e_step(); } break;
            case 10:
                if (!semi.empty()) {
                    ldas.emplace_back(new LDA<S>(p, r.pick(semi), make_m<S>(m, d.C), 1, r.uni(1, 3)));
                    if (r.chance(0.5)) ldas.back()->get_event_dispatcher()->add_listener(seen);
                    ldas.back()->partial_fit(d.X, d.y);
                }
                break;
            case 11: if (!ldas.empty()) ldas.erase(ldas.begin() + r.uni(0, (int)ldas.size() - 1)); break;
        }
        run().tick();
    }
    if (r.chance(0.5)) semi.clear(); else ldas.clear();
    for (auto &e : s) infer(e, true, false);
    for (auto &e : u) infer(e, true, true);
    for (auto &e : semi) infer(e, true, true);
    run().distinct("steps " + hist + fmt("%d %d", d.V, d.D));
}

// models and data through files, listeners of the console tools
void files(Rng &r) {
    DataOpts o;
    o.maxV = 12; o.maxD = in_valgrind() ? 5 : 10;
    Data d = gen_data(r, o);
    Kind kind = r.pick(std::vector<Kind>{UNSUP, SLDA, FSLDA});
    Cfg cfg = gen_cfg(r, kind);
    cfg.cl = 1; cfg.e_iters = 2; cfg.m_iters = 2;
    auto p = gen_params<double>(r, kind, r.uni(1, 6), d.V, d.C);
    for (int i = 0; i < d.D; i++) while (d.X.col(i).cast<double>().sum() > 2e9) d.X.col(i) /= 2;
    std::string data = run().scratch + "/data", model = run().scratch + "/model";
    {
        std::fstream f(data, std::ios::out | std::ios::binary | std::ios::trunc);
        f << numpy_format::NumpyOutput<int>(d.X) << numpy_format::NumpyOutput<int>(d.y);
    }
    MatrixXi X, y, X1;
    io::parse_input_data(data, X, y);
    io::parse_input_data(data, X1);
    VF_CHECK(X == d.X && X1 == d.X && y.size() == d.D, "file", "data read back differ");
    defined(X, "data", "file"); defined(y, "labels", "file");
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    std::vector<std::string> snaps;
    {
        LDA<double> l(p, make_e<double>(cfg), make_m<double>(cfg, d.C), 3, r.uni(1, 3));
        auto disp = l.get_event_dispatcher();
        disp->add_listener<ExpectationProgress>();
        disp->add_listener<MaximizationProgress>();
        disp->add_listener<EpochProgress>();
        disp->add_listener<SnapshotEvery>(model, 2);
        l.fit(X, VectorXi(Eigen::Map<VectorXi>(y.data(), y.size())));
    }
    std::cout.rdbuf(old);
    auto q = io::load_lda(model + "_002");
    defined(*q, "snapshot");
    io::save_lda(model, q);
    auto t = io::load_lda(model);
    VF_CHECK(same_params(*q, *t), "file", "a model read back differs");
    {
        LDA<double> l(t, make_e<double>(cfg), make_m<double>(cfg, d.C), 1, 2);
        l.partial_fit(d.X, d.y);
        defined(*t, "continued");
    }
    // and as a model without classes
    auto u = std::make_shared<parameters::ModelParameters<double>>(p->alpha, p->beta);
    run().count("files", 2);
    run().distinct(fmt("files %s %d %d", cfg.str().c_str(), d.V, d.D));
}

}  // namespace

int main(int argc, char **argv) {
    std::vector<Scenario> s;
    static std::vector<std::string> names;
    names.reserve(32);
    bool vg = in_valgrind();
    for (int k = 0; k < NKINDS; k++) {
        names.push_back(std::string("double-") + kind_name(k));
        s.push_back({names.back().c_str(), vg ? 6 : 240, vg ? 60 : 8000, [k](Rng &r) { library<double>(r, static_cast<Kind>(k)); }});
        names.push_back(std::string("float-") + kind_name(k));
        s.push_back({names.back().c_str(), vg ? 4 : 120, vg ? 40 : 4000, [k](Rng &r) { library<float>(r, static_cast<Kind>(k)); }});
    }
    s.push_back({"builders-double", vg ? 8 : 300, vg ? 80 : 8000, builders<double>});
    s.push_back({"builders-float", vg ? 4 : 150, vg ? 40 : 4000, builders<float>});
    s.push_back({"steps-double", vg ? 8 : 400, vg ? 80 : 10000, steps<double>});
    s.push_back({"steps-float", vg ? 4 : 200, vg ? 40 : 5000, steps<float>});
    s.push_back({"files", vg ? 6 : 150, vg ? 60 : 4000, files});
    Options o;
    if (vg) { o.quiet_s = 1e9; o.limit_s = 300; }
    return drive(argc, argv, "C20", s, o);
}
