// C03: every document goes exactly once through inference and exactly once,
// with its own result, through the M step.
#include "models.hpp"
#include "perturb.hpp"

using namespace vf;

// Everything the monitored steps saw during one call of the library.
struct Trace {
    std::mutex m;
    std::vector<int> e_count, m_count;          // per document
    std::vector<int> own;                       // doc_m_step with somebody else's result
    std::vector<int> order;                     // completion order of the inferences
    int e_epoch = 0, m_epoch = 0;
    int in_flight = 0, max_flight = 0;
    std::set<std::thread::id> threads;
    std::vector<std::string> errors;
    std::thread::id caller;
    int workers = 1;
    bool training = true;
    int foreign = 0;
    void reset(int D) {
        e_count.assign(D, 0); m_count.assign(D, 0); own.clear(); order.clear(); threads.clear(); errors.clear();
        e_epoch = m_epoch = in_flight = max_flight = foreign = 0;
    }
    void error(const std::string &s) { if (errors.size() < 5) errors.push_back(s); }
};

// the identity of a document is carried by its words
static int id_of(const VectorXi &x) { return x[0] * 1000 + x[1] - 1001; }
static void set_id(MatrixXi &X, int d) { X(0, d) = 1 + (d + 1) / 1000; X(1, d) = (d + 1) % 1000; }

template <class S> class MonE : public em::EStepInterface<S> {
  public:
    MonE(Trace &t, int style, uint64_t seed) : t_(t), style_(style), seed_(seed) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc,
                                                       const std::shared_ptr<parameters::Parameters> p) override {
        int id = id_of(doc->get_words());
        {
            std::lock_guard<std::mutex> l(t_.m);
            run().tick();
            if (id < 0 || id >= (int)t_.e_count.size()) t_.foreign++;
            else t_.e_count[id]++;
            t_.in_flight++;
            t_.max_flight = std::max(t_.max_flight, t_.in_flight);
            t_.threads.insert(std::this_thread::get_id());
            if (t_.e_epoch || t_.m_epoch) t_.error("a document is inferred after the model was updated");
            if (!doc_alive(doc)) t_.error("a document has no words");
        }
        // differently slow documents, some much slower
        uint64_t h = mix(seed_ * 31 + id * 7);
        int us = style_ == 0 ? 0 : style_ == 1 ? h % 60 : style_ == 2 ? (h % 10 == 0 ? 2500 : 0) : style_ == 3 ? (id == 0 ? 6000 : h % 20) : (id == 0 ? 3200000 : 0);
        if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
        auto vp = std::make_shared<VP<S>>();
        vp->gamma = Vec<S>::Constant(2, id + 1);
        vp->gamma[1] = id + 2;
        vp->phi = Mat<S>::Constant(2, doc->get_words().rows(), id);
        this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S>>(static_cast<S>(id));
        {
            std::lock_guard<std::mutex> l(t_.m);
            t_.in_flight--;
            t_.order.push_back(id);
        }
        return vp;
    }
    void e_step() override {
        std::lock_guard<std::mutex> l(t_.m);
        t_.e_epoch++;
        if (t_.in_flight) t_.error("e_step while documents are still inferred");
        if (std::this_thread::get_id() != t_.caller) t_.error("e_step not on the calling thread");
        for (int c : t_.e_count) if (c != 1) { t_.error("e_step before every document was inferred"); break; }
    }
    static bool doc_alive(const std::shared_ptr<corpus::Document> &d) { return d && d->get_words().rows() >= 2; }

  private:
    Trace &t_;
    int style_;
    uint64_t seed_;
};

template <class S> class MonM : public em::MStepInterface<S> {
  public:
    MonM(Trace &t, parameters::Parameters *model, int style, uint64_t seed) : t_(t), model_(model), style_(style), seed_(seed) {}
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> v,
                    std::shared_ptr<parameters::Parameters> m) override {
        int id = id_of(doc->get_words());
        auto vp = std::static_pointer_cast<VP<S>>(v);
        {
            std::lock_guard<std::mutex> l(t_.m);
            run().tick();
            if (std::this_thread::get_id() != t_.caller) t_.error("doc_m_step not on the calling thread");
            if (id < 0 || id >= (int)t_.m_count.size()) { t_.foreign++; return; }
            t_.m_count[id]++;
            if (t_.e_count[id] == 0) t_.error("a document reaches the M step before its inference");
            if (t_.m_epoch || t_.e_epoch) t_.error("a document reaches the M step after the model was updated");
            if (!vp || vp->gamma.rows() != 2 || vp->gamma[0] != id + 1 || vp->gamma[1] != id + 2)
                t_.error(fmt("document %d gets the result of document %g", id, vp ? (double)vp->gamma[0] - 1 : -1.0));
            if (m.get() != model_) t_.error("doc_m_step gets a foreign model");
        }
        if (style_ == 2 && mix(seed_ + id) % 5 == 0) std::this_thread::sleep_for(std::chrono::microseconds(400));
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override {
        std::lock_guard<std::mutex> l(t_.m);
        t_.m_epoch++;
        if (std::this_thread::get_id() != t_.caller) t_.error("m_step not on the calling thread");
        if (m.get() != model_) t_.error("m_step gets a foreign model");
        if (t_.in_flight) t_.error("the model is updated while documents are still inferred");
        for (int c : t_.e_count) if (c != 1) { t_.error("the model is updated before every document was inferred"); break; }
        for (int c : t_.m_count) if (c != 1) { t_.error("the model is updated before every document was folded in"); break; }
    }

  private:
    Trace &t_;
    parameters::Parameters *model_;
    int style_;
    uint64_t seed_;
};

static int threads_now() {
    int n = 0;
    DIR *d = opendir("/proc/self/task");
    while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}

// A joined thread can stay visible in /proc for a moment.
static bool threads_settle(int expect) {
    for (int i = 0; i < 200; i++) {
        if (threads_now() <= expect) return true;
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    return false;
}

enum Workload { Usual, Slow, Large, Long };

template <class S> void one_(Rng &r, Workload kind) {
    bool slow = kind == Slow;
    int D = r.pick(std::vector<int>{1, 1, 2, 3, 5, 8, 16, 40, 150});
    if (r.chance(0.02)) D = r.pick(std::vector<int>{257, 600, 1100, 2500});
    if (slow) D = r.uni(1, 4);
    if (kind == Large) D = r.pick(std::vector<int>{32768, 65535, 65536, 65537, 70000, 100003, 131073});
    if (kind == Long) D = r.uni(1, 3);
    int W = r.pick(std::vector<int>{1, 1, 2, 3, 4, 8, 16, 0});
    int V = r.uni(2, 5);
    MatrixXi X = MatrixXi::Zero(V, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) { set_id(X, d); y[d] = r.uni(-1, 3); }
    int style = slow ? 4 : kind == Large || kind == Long ? 0 : D > 100 ? r.uni(0, 1) : r.uni(0, 3);
    perturb().seed = r.next() | 1;
    perturb().level = r.pick(std::vector<int>{0, 10, 40, 90});
    perturb().spurious = r.pick(std::vector<int>{0, 50, 500});
    if (kind == Large) perturb().level = perturb().spurious = 0;
    uint64_t locks0 = perturb().locks;

    Trace t;
    t.caller = std::this_thread::get_id();
    auto p = gen_params<S>(r, FSLDA, 2, V, 3);
    auto e = std::make_shared<MonE<S>>(t, style, r.next());
    auto m = std::make_shared<MonM<S>>(t, p.get(), style, r.next());
    size_t iters = slow || kind == Large ? 1 : kind == Long ? r.pick(std::vector<int>{100, 128, 200, 255, 256, 257, 300, 500, 1000, 1001, 1100}) : r.uni(0, 4);
    auto lda0 = std::make_shared<LDA<S>>(p, e, m, iters, W);
    bool moved = r.chance(0.3);
    auto lda = moved ? std::make_shared<LDA<S>>(std::move(*lda0)) : lda0;
    int effective = std::max(W, 1);

    // count the epochs through the epoch events
    int epochs = 0;
    lda->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "EpochProgressEvent") {
            epochs++;
            for (int d = 0; d < D; d++) {
                if (t.e_count[d] != 1) t.error(fmt("document %d was inferred %d times in an epoch", d, t.e_count[d]));
                if (t.m_count[d] != 1) t.error(fmt("document %d was folded in %d times in an epoch", d, t.m_count[d]));
            }
            if (t.e_epoch != 1) t.error(fmt("%d e_step calls in an epoch", t.e_epoch));
            if (t.m_epoch != 1) t.error(fmt("%d m_step calls in an epoch", t.m_epoch));
            run().count("epochs");
            run().count("inferences", D);
            auto errs = t.errors;
            auto mf = t.max_flight;
            auto ord = t.order;
            auto nthreads = t.threads.size();
            int foreign = t.foreign;
            t.reset(D);
            t.errors = errs;
            if (foreign) t.error("a document that is not in the corpus was processed");
            if (mf > effective) t.error(fmt("%d documents were inferred concurrently by %d workers", mf, effective));
            run().maximum("documents inferred concurrently", mf);
            run().maximum("threads used", nthreads);
            uint64_t h = D;
            for (int i : ord) h = mix(h * 1000003 + i);
            run().distinct(h ^ mix(W * 977 + nthreads));
        }
    });
    int base = threads_now();
    int ops = kind != Usual ? 1 : r.uni(1, 3);
    if (kind == Large) run().count("corpora of more than 32000 documents");
    std::shared_ptr<corpus::EigenClassificationCorpus> kept;
    std::string hist;
    for (int o = 0; o < ops; o++) {
        t.reset(D);
        epochs = 0;
        int op = kind == Long ? r.uni(0, 1) : r.uni(0, 5);
        int want = 1;
        switch (op) {
            case 0: hist += " fit(X,y)"; lda->fit(X, y); want = iters; break;
            case 1: hist += " fit(X)"; lda->fit(X); want = iters; break;
            case 2: hist += " partial_fit(X,y)"; lda->partial_fit(X, y); break;
            case 3: {
                hist += " partial_fit(corpus)";
                if (!kept || r.chance(0.3)) kept = std::make_shared<corpus::EigenClassificationCorpus>(X, y, r.uni(0, 99));
                lda->partial_fit(kept);
                break;
            }
            default: {
                want = 0;
                Mat<S> g;
                if (op == 4) { hist += " transform"; g = lda->transform(X); }
                else { hist += " transform_predict"; g = std::get<0>(lda->transform_predict(X)); }
                VF_CHECK(g.cols() == D && g.rows() == 2, "shape", "result of shape %ldx%ld", (long)g.rows(), (long)g.cols());
                for (int d = 0; d < D && g.cols() == D; d++)
                    if (g(0, d) != d + 1 || g(1, d) != d + 2) {
                        run().fail("wrong-position", fmt("position %d holds the result of document %g", d, (double)g(0, d) - 1));
                        break;
                    }
                for (int d = 0; d < D; d++)
                    if (t.e_count[d] != 1) {
                        run().fail("inference-count", fmt("document %d was inferred %d times by one inference call", d, t.e_count[d]));
                        break;
                    }
                VF_CHECK(t.m_epoch == 0 && t.e_epoch == 0, "inference-updates", "an inference call updates the model");
                for (int c : t.m_count) if (c) { run().fail("inference-updates", "an inference call runs the M step"); break; }
                VF_CHECK(t.max_flight <= effective, "concurrency", "%d documents were inferred concurrently by %d workers",
                         t.max_flight, effective);
                run().count("inferences", D);
                uint64_t h = D + 7;
                for (int i : t.order) h = mix(h * 1000003 + i);
                run().distinct(h ^ mix(W * 977));
            }
        }
        run().count("calls");
        if (kind == Long) run().count("epochs of long trainings", epochs);
        for (auto &s : t.errors) run().fail("protocol", s);
        VF_CHECK(epochs == want, "epochs", "%d epochs instead of %d", epochs, want);
        VF_CHECK(t.in_flight == 0, "outlives", "documents are inferred after the call returned");
        VF_CHECK(threads_settle(base), "outlives", "%d threads before and %d after the call", base, threads_now());
        if (run().case_fails() > 5) break;
    }
    perturb().level = 0;
    perturb().spurious = 0;
    run().count("lock operations", perturb().locks - locks0);
    run().sample(fmt("%s D=%d workers=%d style=%d iterations=%zu%s:%s", sname<S>(), D, W, style, iters, moved ? " moved" : "",
                     hist.c_str()));
}

template <class S> void one(Rng &r) { one_<S>(r, Usual); }
static void slow(Rng &r) { one_<double>(r, Slow); }
template <class S> void large(Rng &r) { one_<S>(r, Large); }
template <class S> void many(Rng &r) { one_<S>(r, Long); }

int main(int argc, char **argv) {
    int rc = drive(argc, argv, "C03", {
        {"double", 3000, 60000, one<double>},
        {"float", 700, 12000, one<float>},
        {"slow", 16, 48, slow},
        {"large-double", 12, 100, large<double>},
        {"large-float", 4, 40, large<float>},
        {"long-double", 16, 200, many<double>},
        {"long-float", 8, 80, many<float>},
    });
    printf("locks=%llu waits=%llu spurious=%llu delays=%llu\n", (unsigned long long)perturb().locks,
           (unsigned long long)perturb().waits, (unsigned long long)perturb().spurious_wakeups,
           (unsigned long long)perturb().delays);
    return rc;
}
