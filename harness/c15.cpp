// C15: the builder makes valid, reproducible models out of what it was told
// and refuses incomplete ones.
#include "ref.hpp"

#include <condition_variable>
#include <random>

using namespace vf;

namespace {

template <class S> PParams<S> params_of(LDA<S> &l) {
    return std::static_pointer_cast<Params<S>>(l.model_parameters());
}

template <class S> LDA<S> built(const LDABuilder<S> &b) { return b; }

template <class S> void valid(const std::string &who, const Params<S> &p, int K, int V, bool positive) {
    VF_REQUIRE(p.alpha.rows() == K && p.beta.rows() == K && p.beta.cols() == V, "shape", "%s: prior %ld, topics %ldx%ld", who.c_str(), (long)p.alpha.rows(), (long)p.beta.rows(), (long)p.beta.cols());
    for (int k = 0; k < K; k++) {
        VF_CHECK(std::fabs(p.alpha[k] * K - 1) < 4 * eps<S>(), "prior", "%s: prior of topic %d is %.10g", who.c_str(), k, (double)p.alpha[k]);
        ld s = to_ld(p.beta.row(k)).sum();
        VF_CHECK(fabsl(s - 1) < 4 * eps<S>() * (V + 2), "sum", "%s: topic %d sums to %.12Lg", who.c_str(), k, s);
        for (int w = 0; w < V; w++)
            VF_CHECK(std::isfinite(p.beta(k, w)) && (positive ? p.beta(k, w) > 0 : p.beta(k, w) >= 0), "range", "%s: topic %d word %d has probability %g", who.c_str(), k, w, (double)p.beta(k, w));
    }
}

int gen_seed(Rng &r) { return r.chance(0.5) ? r.uni(0, 50) : r.uni(-2147483647, 2147483647); }

// any other seed, near, far, or the same but for one bit, the sign or the last digits
int other_seed(Rng &r, int rs) {
    for (;;) {
        unsigned u = static_cast<unsigned>(rs);
        switch (r.uni(0, 4)) {
            case 0: u += r.uni(1, 9); break;
            case 1: u ^= 1u << r.uni(0, 31); break;
            case 2: u = -u; break;
            case 3: u += r.pick(std::vector<unsigned>{100, 1000, 10000, 100000, 1000000, 128, 256, 1024, 32768, 65536}) * r.uni(1, 9); break;
            default: u = gen_seed(r);
        }
        if (static_cast<int>(u) != rs) return static_cast<int>(u);
    }
}

class PlainCorpus : public corpus::Corpus {
  public:
    explicit PlainCorpus(const MatrixXi &X) : X_(X) {}
    size_t size() const override { return X_.cols(); }
    const std::shared_ptr<corpus::Document> at(size_t i) const override {
        VF_REQUIRE(i < (size_t)X_.cols(), "document-index", "document %zu of %ld is asked for", i, (long)X_.cols());
        return std::make_shared<corpus::EigenDocument>(VectorXi(X_.col(i)));
    }
    void shuffle() override {}

  private:
    MatrixXi X_;
};

// topics seeded from documents whose contributions can be told apart
template <class S> void seeded(Rng &r) {
    int D = r.pick(std::vector<int>{1, 2, 3, 5, 12, 40}), extra = r.uni(0, 20), V = D + extra, K = r.uni(1, 20);
    int N = r.pick(std::vector<int>{1, 2, 7, 30, 30});
    if (r.chance(0.06)) N = r.pick(std::vector<int>{r.uni(31, 300), r.uni(256, 5000), r.uni(256, 5000)});
    bool deflt = N == 30 && r.chance(0.5);
    // document i has word i, nobody else has; the others are shared; one may be empty
    MatrixXi X = MatrixXi::Zero(V, D);
    int empty = r.chance(0.3) && D > 1 ? r.uni(0, D - 1) : -1;
    int maxc = r.pick(std::vector<int>{1, 5, 1000, sizeof(S) == 8 ? 3000000 : 300});
    for (int i = 0; i < D; i++) {
        if (i == empty) continue;
        X(i, i) = r.uni(1, maxc);
        for (int w = D; w < V; w++) if (r.chance(0.4)) X(w, i) = r.uni(1, maxc);
    }
    int rs = gen_seed(r);
    const VectorXi zeros = VectorXi::Zero(D);
    auto init = [&](LDABuilder<S> &b, int how, int seed) {
        std::shared_ptr<corpus::Corpus> c;
        if (how == 1) c = std::make_shared<corpus::EigenCorpus>(X);
        if (how == 2) c = std::make_shared<PlainCorpus>(X);
        if (how == 3) c = std::make_shared<corpus::EigenClassificationCorpus>(X, zeros);
        if (how == 0) { if (deflt && seed == 0) b.initialize_topics_seeded(X, K); else b.initialize_topics_seeded(X, K, N, seed); }
        else { if (deflt && seed == 0) b.initialize_topics_seeded(c, K); else b.initialize_topics_seeded(c, K, N, seed); }
    };
    if (deflt && r.chance(0.5)) rs = 0;
    LDABuilder<S> b;
    if (r.chance(0.3)) b.initialize_topics_random(r.uni(1, 5), r.uni(1, 5));   // replaced
    int how = r.uni(0, 3);
    init(b, how, rs);
    LDA<S> l = built<S>(b);
    auto p = params_of<S>(l);
    std::string who = fmt("%s seeded documents=%d words=%d topics=%d N=%d seed=%d", sname<S>(), D, V, K, N, rs);
    valid<S>(who, *p, K, V, true);
    // how often was each document drawn for each topic? word i of topic k holds (1 + n X(i,i)) / total
    for (int k = 0; k < K; k++) {
        // the total follows from a word nobody has or from trying to invert
        ld best = -1;
        std::vector<ld> n(D, 0);
        // total = V + sum_i n_i |x_i|; beta(k,i) total = 1 + n_i X(i,i)
        // => n_i = (beta total - 1) / X(i,i), sum of n_i (with the empty one) = N
        ld a = V, bq = 0;   // total = a + bq*total
        for (int i = 0; i < D; i++) {
            if (i == empty) continue;
            ld s = X.col(i).template cast<ld>().sum();
            a -= s / X(i, i);
            bq += (ld)p->beta(k, i) * s / X(i, i);
        }
        if (fabsl(1 - bq) < 1e-6L || fabsl(a) < 1e-9L) continue;
        best = a / (1 - bq);
        // conditioning: relative error of total is about eps * (|a| + total) / |1 - bq| ...
        ld err = 8 * eps<S>() * (V + N) / fabsl(1 - bq);
        if (!(err * best / 1 < 0.02L)) continue;
        ld drawn = 0;
        bool ok = true;
        for (int i = 0; i < D; i++) {
            if (i == empty) continue;
            n[i] = (p->beta(k, i) * best - 1) / X(i, i);
            if (fabsl(n[i] - roundl(n[i])) > 0.05L || n[i] < -0.05L) ok = false;
            drawn += roundl(n[i]);
        }
        VF_CHECK(ok && (empty < 0 ? drawn == N : drawn <= N), "mixture", "%s: topic %d is not one plus the words of %d documents (%Lg drawn)", who.c_str(), k, N, drawn);
        if (!ok) break;
        // every word then follows
        LVec e = LVec::Ones(V);
        for (int i = 0; i < D; i++) if (i != empty) e += roundl(n[i]) * X.col(i).template cast<ld>();
        e /= e.sum();
        for (int w = 0; w < V; w++)
            VF_CHECK(fabsl(e[w] - p->beta(k, w)) <= 8 * eps<S>() * (N + V) * (e[w] + 1e-6L), "word-frequencies", "%s: topic %d word %d has probability %.10g, the documents drawn give %.10Lg", who.c_str(), k, w,
                     (double)p->beta(k, w), e[w]);
        run().count("topics resolved into documents");
        if (N > 1024) run().count("topics resolved into thousands of documents");
    }
    // again: same seed, any way of passing the documents
    LDABuilder<S> b2;
    init(b2, r.uni(0, 3), rs);
    LDA<S> l2 = built<S>(b2);
    VF_CHECK(same_bits(params_of<S>(l2)->beta, p->beta), "reproducible", "%s: the same seed gives another model", who.c_str());
    // how many topics have to be alike by accident
    int accidents = K * (N >= 7 ? D - 1 : 1);
    if (D > 1 && (N >= 7 ? accidents >= 25 : K * std::log2(D) > 45)) {
        LDABuilder<S> b3;
        int rs3 = other_seed(r, rs);
        init(b3, how, rs3);
        LDA<S> l3 = built<S>(b3);
        VF_CHECK(!same_bits(params_of<S>(l3)->beta, p->beta), "seeds", "%s: seed %d gives the same model", who.c_str(), rs3);
        run().count("seeds compared");
        if (N >= 7 ? accidents >= 25 + D - 1 : (K - 1) * std::log2(D) > 45) {
            bool same = true;
            for (int k = 1; k < K; k++) same &= (p->beta.row(k) - p->beta.row(0)).cwiseAbs().maxCoeff() == 0;
            VF_CHECK(!same, "topics-differ", "%s: all topics are the same", who.c_str());
        }
    }
    run().distinct(mix(hash_str(who)));
    run().sample(who);
}

// the documents drawn are spread evenly over the corpus: every document's own
// word is expected equally often
void frequency(Rng &r) {
    int D = r.uni(2, 9), K = 400, N = 25, rs = gen_seed(r);
    MatrixXi X = MatrixXi::Identity(D, D) * 7;
    LDABuilder<double> b;
    b.initialize_topics_seeded(X, K, N, rs);
    LDA<double> l = built<double>(b);
    auto p = params_of<double>(l);
    double total = D + 7.0 * N, draws = (double)K * N;
    for (int i = 0; i < D; i++) {
        double n = 0;
        for (int k = 0; k < K; k++) n += (p->beta(k, i) * total - 1) / 7;
        double q = 1.0 / D, sd = std::sqrt(draws * q * (1 - q));
        VF_CHECK(std::fabs(n - draws * q) <= 8 * sd, "document-frequency", "document %d of %d was drawn %.1f times of %g (seed %d)", i, D, n, draws, rs);
    }
    // and neither is it always the same mixture
    double var = 0;
    for (int k = 0; k < K; k++) { double n = (p->beta(k, 0) * total - 1) / 7 - (double)N / D; var += n * n; }
    var /= K;
    double ex = N * (1.0 / D) * (1 - 1.0 / D);
    VF_CHECK(var > ex * 0.5 && var < ex * 2, "document-variance", "draws of one document vary by %.3g per topic, independent draws by %.3g (D=%d seed %d)", var, ex, D, rs);
    run().count("documents drawn", (uint64_t)draws);
    run().distinct(mix(static_cast<uint64_t>(rs) * 31 + D));
}

// hundreds of topics out of many documents: none twice
template <class S> void many_topics(Rng &r) {
    int D = r.uni(50, 300), V = r.pick(std::vector<int>{40, 100}), K = r.uni(150, 700), N = r.uni(25, 40), rs = gen_seed(r);
    MatrixXi X(V, D);
    for (int i = 0; i < X.size(); i++) X.data()[i] = r.uni(0, 30);
    LDABuilder<S> b;
    b.initialize_topics_seeded(X, K, N, rs);
    LDA<S> l = built<S>(b);
    auto p = params_of<S>(l);
    std::string who = fmt("%s seeded topics=%d documents=%d words=%d N=%d seed=%d", sname<S>(), K, D, V, N, rs);
    valid<S>(who, *p, K, V, true);
    std::map<std::vector<S>, int> topics;
    for (int k = 0; k < K; k++) {
        Vec<S> t = p->beta.row(k).transpose();
        auto it = topics.insert({std::vector<S>(t.data(), t.data() + V), k});
        VF_CHECK(it.second, "topics-differ", "%s: topics %d and %d are the same", who.c_str(), it.first->second, k);
    }
    // the mean over all topics follows the word frequencies of the documents
    LVec want = X.cast<ld>().rowwise().sum() / D;
    want = (LVec::Ones(V) + N * want) / (V + N * want.sum());
    LVec got = to_ld(p->beta).colwise().sum().transpose() / K;
    for (int w = 0; w < V; w++)
        VF_CHECK(fabsl(got[w] - want[w]) < 8 * want[w] * 0.65L / std::sqrt((ld)N * K) + 1e-3L * want[w], "word-frequencies", "%s: word %d has mean probability %.8Lg, in the documents %.8Lg", who.c_str(), w, got[w], want[w]);
    run().count("topics compared with each other", K);
    run().distinct(mix(hash_str(who)));
}

template <class S> void random_topics(Rng &r) {
    int V = r.pick(std::vector<int>{1, 2, 10, 60, 200}), K = r.pick(std::vector<int>{1, 2, 5, 50, 50, 300}), rs = gen_seed(r), rs3 = other_seed(r, rs);
    LDABuilder<S> b, b2, b3;
    b.initialize_topics_random(V, K, rs);
    b2.initialize_topics_random(V, K, rs);
    b3.initialize_topics_random(V, K, rs3);
    LDA<S> l = built<S>(b), l2 = built<S>(b2), l3 = built<S>(b3);
    auto p = params_of<S>(l);
    std::string who = fmt("%s random words=%d topics=%d seed=%d", sname<S>(), V, K, rs);
    valid<S>(who, *p, K, V, false);
    VF_CHECK(same_bits(params_of<S>(l2)->beta, p->beta), "reproducible", "%s: the same seed gives another model", who.c_str());
    if (V > 1) {
        VF_CHECK(!same_bits(params_of<S>(l3)->beta, p->beta), "seeds", "%s: seed %d gives the same model", who.c_str(), rs3);
        std::map<std::vector<S>, int> topics;
        for (int k = 0; k < K && V >= 10; k++) {
            Vec<S> t = p->beta.row(k).transpose();
            auto it = topics.insert({std::vector<S>(t.data(), t.data() + V), k});
            VF_CHECK(it.second, "topics-differ", "%s: topics %d and %d are the same", who.c_str(), it.first->second, k);
        }
        run().count("seeds compared");
    }
    if (V >= 60) {
        // the words differ in probability, but no word by more than a draw from (0, 1) allows: mean 1/V
        for (int k = 0; k < K; k++) VF_CHECK(p->beta.row(k).maxCoeff() < 4.0 / V, "range", "%s: topic %d gives %g to one word", who.c_str(), k, (double)p->beta.row(k).maxCoeff());
        run().count("topics drawn", K);
    }
    run().distinct(mix(hash_str(who)));
}

// eta, copies of models
template <class S> void classes(Rng &r) {
    int V = r.uni(1, 12), K = r.uni(1, 6), C = r.uni(1, 7);
    Kind kind = r.chance(0.5) ? FSLDA : MULTI;
    auto src = gen_params<S>(r, kind, K, V, C);
    auto orig = clone<S>(*src);
    LDABuilder<S> b;
    std::string who = fmt("%s classes=%d topics=%d words=%d", sname<S>(), C, K, V);
    for (int i = 0; i < 2; i++) {
        bool threw = false;
        try { if (i) b.initialize_eta_zeros(C); else b.initialize_eta_uniform(C); } catch (const std::exception &) { threw = true; }
        VF_CHECK(threw, "eta-first", "%s: class parameters can be initialised without topics", who.c_str());
    }
    bool from_model = r.chance(0.5);
    int eta = r.uni(0, 3);
    if (eta == 3 && r.chance(0.5)) { b.initialize_eta_from_model(src); b.initialize_topics_from_model(src); from_model = true; }
    else {
        if (from_model) b.initialize_topics_from_model(src); else b.initialize_topics_random(V, K, r.uni(0, 99));
        if (eta == 1) b.initialize_eta_zeros(C);
        if (eta == 2) b.initialize_eta_uniform(C);
        if (eta == 3) b.initialize_eta_from_model(src);
    }
    if (eta == 0) {
        // topics of another model bring no class parameters along
        bool threw = false;
        b.set_fast_supervised_m_step();
        try { LDA<S> l = built<S>(b); } catch (const std::exception &) { threw = true; }
        VF_CHECK(threw, "refused", "%s: a supervised model without class parameters is built (topics %s)", who.c_str(), from_model ? "from a model" : "random");
        run().count("refused");
        b.initialize_eta_zeros(C);
    }
    // train it: the source keeps its values
    Cfg cfg = gen_cfg(r, eta == 2 || (eta == 3 && kind == MULTI) ? MULTI : FSLDA);
    b.set_e(make_e<S>(cfg)).set_m(make_m<S>(cfg, C)).set_iterations(2).set_workers(2);
    LDA<S> l = built<S>(b);
    auto p = params_of<S>(l);
    VF_REQUIRE(p->eta.rows() == K && p->eta.cols() == C, "shape", "%s: class parameters are %ldx%ld", who.c_str(), (long)p->eta.rows(), (long)p->eta.cols());
    if (from_model) VF_CHECK(same_bits(p->alpha, orig->alpha) && same_bits(p->beta, orig->beta), "copy", "%s: topics differ from the model they were taken from", who.c_str());
    else valid<S>(who, *p, K, V, false);
    if (eta <= 1) VF_CHECK(p->eta.cwiseAbs().maxCoeff() == 0, "eta", "%s: zero class parameters are %s", who.c_str(), show(p->eta).c_str());
    if (eta == 2) VF_CHECK((p->eta.array() * C - 1).abs().maxCoeff() < 4 * eps<S>(), "eta", "%s: uniform class parameters are %s", who.c_str(), show(p->eta).c_str());
    if (eta == 3) VF_CHECK(same_bits(p->eta, orig->eta), "copy", "%s: class parameters differ from the model they were taken from", who.c_str());
    DataOpts o;
    o.minV = o.maxV = V; o.minC = o.maxC = C; o.maxD = 8; o.huge = false;
    Data d = gen_data(r, o);
    l.fit(d.X, d.y);
    VF_CHECK(same_params<S>(*src, *orig), "source-changed", "%s: training the new model changes the one it was copied from", who.c_str());
    run().count("sources compared");
    run().distinct(mix(hash_str(who) * 16 + eta * 2 + from_model));
}

// random histories of calls: which models are refused
template <class S> void refused(Rng &r) {
    LDABuilder<S> b;
    bool topics = false, eta = false;
    int e = 0, m = 0;   // 0 no class parameters needed, 1 needed, 2 not known to the builder
    std::string hist;
    int K = r.uni(1, 4), V = 5, C = 3, n = r.uni(1, 12);
    auto src = gen_params<S>(r, FSLDA, K, V, C);
    for (int i = 0; i < n; i++) {
        int op = r.uni(0, 23);
        hist += fmt(" %d", op);
        switch (op) {
            case 0: b.set_classic_e_step(); e = 0; break;
            case 1: b.set_supervised_e_step(); e = 1; break;
            case 2: b.set_fast_supervised_e_step(); e = 1; break;
            case 3: b.set_semi_supervised_e_step(); e = 1; break;
            case 4: b.set_multinomial_supervised_e_step(); e = 1; break;
            case 5: b.set_correspondence_supervised_e_step(); e = 1; break;
            case 6: b.set_e(b.get_classic_e_step()); e = 0; break;
            case 7: b.set_e(b.get_fast_supervised_e_step()); e = 2; break;
            case 8: b.set_classic_m_step(); m = 0; break;
            case 9: b.set_supervised_m_step(); m = 1; break;
            case 10: b.set_fast_supervised_m_step(); m = 1; break;
            case 11: b.set_fast_supervised_online_m_step(static_cast<size_t>(C)); m = 1; break;
            case 12: b.set_fast_supervised_online_m_step(std::vector<S>(C, 1)); m = 1; break;
            case 13: b.set_fast_supervised_online_m_step(Vec<S>(Vec<S>::Ones(C))); m = 1; break;
            case 14: b.set_semi_supervised_m_step(); m = 1; break;
            case 15: b.set_multinomial_supervised_m_step(); m = 1; break;
            case 16: b.set_correspondence_supervised_m_step(); m = 1; break;
            case 17: b.set_m(b.get_classic_m_step()); m = 0; break;
            case 18: b.initialize_topics_random(V, K); topics = true; break;
            case 19: b.initialize_topics_seeded(MatrixXi(MatrixXi::Ones(V, 3)), K); topics = true; break;
            case 20: b.initialize_topics_from_model(src); topics = true; break;
            case 21: if (topics) { b.initialize_eta_zeros(C); eta = true; } break;
            case 22: if (topics) { b.initialize_eta_uniform(C); eta = true; } break;
            case 23: if (r.chance(0.3)) { b.initialize_eta_from_model(src); eta = true; } break;
        }
        int verdict = !topics ? 1 : eta ? 0 : (e == 1 || m == 1) ? 1 : (e == 2 || m == 2) ? -1 : 0;
        bool threw = false;
        try {
            LDA<S> l = built<S>(b);
            if (verdict == 0) {
                auto p = params_of<S>(l);
                VF_CHECK(p->beta.rows() == K && p->beta.cols() == V, "shape", "%s builder calls%s: topics %ldx%ld", sname<S>(), hist.c_str(), (long)p->beta.rows(), (long)p->beta.cols());
                if (eta) VF_CHECK(p->eta.rows() == K && p->eta.cols() == C, "shape", "%s builder calls%s: class parameters %ldx%ld", sname<S>(), hist.c_str(), (long)p->eta.rows(), (long)p->eta.cols());
            }
        } catch (const std::exception &) { threw = true; }
        if (verdict >= 0) {
            VF_CHECK(threw == (verdict == 1), verdict ? "refused" : "accepted", "%s builder calls%s: a%s model is %s", sname<S>(), hist.c_str(), verdict ? "n incomplete" : " complete", threw ? "refused" : "built");
            run().count(verdict ? "refused" : "complete models");
        }
    }
    run().distinct(hist);
}

// every setter hands its arguments to the step it promises
template <class S> void steps(Rng &r) {
    DataOpts o;
    o.minV = 2; o.maxV = 12; o.minD = 3; o.maxD = 14; o.huge = false; o.minC = 2;
    Kind kind = static_cast<Kind>(r.uni(0, NKINDS - 1));
    o.unlabeled = kind == SEMI;
    Data d = gen_data(r, o);
    int K = r.uni(2, 5);
    auto src = gen_params<S>(r, kind, K, d.V, d.C);
    Cfg cfg = gen_cfg(r, kind);
    cfg.decay = false;
    cfg.cl = r.pick(std::vector<double>{0, 0.4, 1});
    // how many of their arguments the steps are given, the others have their defaults
    static const int e_args[] = {4, 5, 5, 5, 6, 5, 5}, m_args[] = {0, 3, 3, 3, 1, 1, 5};
    int ge = e_args[kind], gm = m_args[kind];
    if (r.chance(0.25)) ge = gm = 0;
    else if (r.chance(0.35)) { ge = r.uni(0, ge); gm = r.uni(0, gm); }
    if (class_distribution(kind)) {   // one smoothing for both
        if (ge < 3) gm = 0;
        else if (gm == 0) ge = r.uni(0, 2);
    }
    if (kind == SEMI && ge) ge = e_args[kind];
    bool deflt = ge == 0 && gm == 0, some = ge < e_args[kind] || gm < m_args[kind];
    {
        Cfg c, f = cfg;
        c.kind = kind;
        c.fp_iters = 10;
        c.minibatch = 128;
        int n = 0, m = 0;
        if (ge > n++) c.e_iters = f.e_iters;
        if (ge > n++) c.e_tol = f.e_tol;
        if (kind == SLDA) { if (ge > n++) c.fp_iters = f.fp_iters; }
        else if (kind == FSLDA || kind == ONLINE || kind == SEMI) { if (ge > n++) c.C = f.C; }
        else if (class_distribution(kind)) { if (ge > n++) c.mu = f.mu; }
        if (kind == MULTI && ge > n++) c.eta_weight = f.eta_weight;
        if (ge > n++) c.cl = f.cl;
        if (ge > n++) c.rs = f.rs;
        if (kind == ONLINE) {
            if (gm > m++) c.L = f.L;
            if (gm > m++) c.minibatch = f.minibatch;
            if (gm > m++) c.momentum = f.momentum;
            if (gm > m++) c.lr = f.lr;
            if (gm > m++) c.beta_weight = f.beta_weight;
        } else if (!class_distribution(kind)) {
            if (gm > m++) c.m_iters = f.m_iters;
            if (gm > m++) c.m_tol = f.m_tol;
            if (gm > m++) c.L = f.L;
        }
        cfg = c;
    }
    if (kind == ONLINE && r.chance(0.6)) for (int c = 0; c < d.C; c++) cfg.class_weights.push_back(r.chance(0.2) ? 0 : r.real(0.2, 3));
    if (kind == ONLINE) {
        // updates only at the end of an epoch, when no document is being inferred
        if (gm < 2) {
            MatrixXi X(d.V, 128);
            VectorXi y(128);
            for (int i = 0; i < 128; i++) { X.col(i) = d.X.col(i % d.D); y[i] = d.y[i % d.D]; }
            d.X = X; d.y = y; d.D = 128;
        } else cfg.minibatch = d.D;
    }
    int iters = r.uni(1, 3), style = r.uni(0, 1);   // set_* or set_e(get_*)
    LDABuilder<S> b;
    auto topics = [&] { b.initialize_topics_from_model(src); b.initialize_eta_from_model(src); };
    bool first = r.chance(0.5);
    if (first) topics();
    if (r.chance(0.3)) b.set_supervised_e_step(3).set_correspondence_supervised_m_step(3);   // replaced below
    size_t ei = cfg.e_iters, fp = cfg.fp_iters, mi = cfg.m_iters, mb = cfg.minibatch;
    S et = cfg.e_tol, Cw = cfg.C, mu = cfg.mu, ew = cfg.eta_weight, cl = cfg.cl, mt = cfg.m_tol, L = cfg.L;
    S mom = cfg.momentum, lr = cfg.lr, bw = cfg.beta_weight;
    int rs = cfg.rs;
    // E step
#define E_STEP(name, args) do { if (style) b.set_##name args; else b.set_e(b.get_##name args); } while (0)
#define M_STEP(name, args) do { if (style) b.set_##name args; else b.set_m(b.get_##name args); } while (0)
    switch (kind) {
        case UNSUP:
            switch (ge) {
                case 0: E_STEP(classic_e_step, ()); break;
                case 1: E_STEP(classic_e_step, (ei)); break;
                case 2: E_STEP(classic_e_step, (ei, et)); break;
                case 3: E_STEP(classic_e_step, (ei, et, cl)); break;
                default: E_STEP(classic_e_step, (ei, et, cl, rs)); break;
            }
            break;
        case SLDA:
            switch (ge) {
                case 0: E_STEP(supervised_e_step, ()); break;
                case 1: E_STEP(supervised_e_step, (ei)); break;
                case 2: E_STEP(supervised_e_step, (ei, et)); break;
                case 3: E_STEP(supervised_e_step, (ei, et, fp)); break;
                case 4: E_STEP(supervised_e_step, (ei, et, fp, cl)); break;
                default: E_STEP(supervised_e_step, (ei, et, fp, cl, rs)); break;
            }
            break;
        case FSLDA:
        case ONLINE:
            switch (ge) {
                case 0: E_STEP(fast_supervised_e_step, ()); break;
                case 1: E_STEP(fast_supervised_e_step, (ei)); break;
                case 2: E_STEP(fast_supervised_e_step, (ei, et)); break;
                case 3: E_STEP(fast_supervised_e_step, (ei, et, Cw)); break;
                case 4: E_STEP(fast_supervised_e_step, (ei, et, Cw, cl)); break;
                default: E_STEP(fast_supervised_e_step, (ei, et, Cw, cl, rs)); break;
            }
            break;
        case MULTI:
            switch (ge) {
                case 0: E_STEP(multinomial_supervised_e_step, ()); break;
                case 1: E_STEP(multinomial_supervised_e_step, (ei)); break;
                case 2: E_STEP(multinomial_supervised_e_step, (ei, et)); break;
                case 3: E_STEP(multinomial_supervised_e_step, (ei, et, mu)); break;
                case 4: E_STEP(multinomial_supervised_e_step, (ei, et, mu, ew)); break;
                case 5: E_STEP(multinomial_supervised_e_step, (ei, et, mu, ew, cl)); break;
                default: E_STEP(multinomial_supervised_e_step, (ei, et, mu, ew, cl, rs)); break;
            }
            break;
        case CORR:
            switch (ge) {
                case 0: E_STEP(correspondence_supervised_e_step, ()); break;
                case 1: E_STEP(correspondence_supervised_e_step, (ei)); break;
                case 2: E_STEP(correspondence_supervised_e_step, (ei, et)); break;
                case 3: E_STEP(correspondence_supervised_e_step, (ei, et, mu)); break;
                case 4: E_STEP(correspondence_supervised_e_step, (ei, et, mu, cl)); break;
                default: E_STEP(correspondence_supervised_e_step, (ei, et, mu, cl, rs)); break;
            }
            break;
        case SEMI: {
            auto s = b.get_fast_supervised_e_step(ei, et, Cw, cl, rs);
            auto u = b.get_classic_e_step(ei, et, cl, rs);
            if (ge == 0 && r.chance(0.4)) { s = nullptr; u = nullptr; }
            else if (ge == 0 && r.chance(0.5)) u = nullptr;
            else if (ge == 0) s = nullptr;
            E_STEP(semi_supervised_e_step, (s, u));
            break;
        }
        default: break;
    }
    // M step
    std::vector<S> wv;
    for (double w : cfg.class_weights) wv.push_back(w);
    Vec<S> we = Eigen::Map<Vec<S>>(wv.data(), wv.size());
    size_t nc = d.C;
    switch (kind) {
        case UNSUP: M_STEP(classic_m_step, ()); break;
        case SLDA:
            switch (gm) {
                case 0: M_STEP(supervised_m_step, ()); break;
                case 1: M_STEP(supervised_m_step, (mi)); break;
                case 2: M_STEP(supervised_m_step, (mi, mt)); break;
                default: M_STEP(supervised_m_step, (mi, mt, L)); break;
            }
            break;
        case FSLDA:
            switch (gm) {
                case 0: M_STEP(fast_supervised_m_step, ()); break;
                case 1: M_STEP(fast_supervised_m_step, (mi)); break;
                case 2: M_STEP(fast_supervised_m_step, (mi, mt)); break;
                default: M_STEP(fast_supervised_m_step, (mi, mt, L)); break;
            }
            break;
        case SEMI:
            switch (gm) {
                case 0: M_STEP(semi_supervised_m_step, ()); break;
                case 1: M_STEP(semi_supervised_m_step, (mi)); break;
                case 2: M_STEP(semi_supervised_m_step, (mi, mt)); break;
                default: M_STEP(semi_supervised_m_step, (mi, mt, L)); break;
            }
            break;
        case MULTI:
            switch (gm) {
                case 0: M_STEP(multinomial_supervised_m_step, ()); break;
                default: M_STEP(multinomial_supervised_m_step, (mu)); break;
            }
            break;
        case CORR:
            switch (gm) {
                case 0: M_STEP(correspondence_supervised_m_step, ()); break;
                default: M_STEP(correspondence_supervised_m_step, (mu)); break;
            }
            break;
        case ONLINE: {
            int how = wv.empty() ? 0 : r.uni(1, 2);
            switch (how * 6 + gm) {
                case 0: M_STEP(fast_supervised_online_m_step, (nc)); break;
                case 1: M_STEP(fast_supervised_online_m_step, (nc, L)); break;
                case 2: M_STEP(fast_supervised_online_m_step, (nc, L, mb)); break;
                case 3: M_STEP(fast_supervised_online_m_step, (nc, L, mb, mom)); break;
                case 4: M_STEP(fast_supervised_online_m_step, (nc, L, mb, mom, lr)); break;
                case 5: M_STEP(fast_supervised_online_m_step, (nc, L, mb, mom, lr, bw)); break;
                case 6: M_STEP(fast_supervised_online_m_step, (wv)); break;
                case 7: M_STEP(fast_supervised_online_m_step, (wv, L)); break;
                case 8: M_STEP(fast_supervised_online_m_step, (wv, L, mb)); break;
                case 9: M_STEP(fast_supervised_online_m_step, (wv, L, mb, mom)); break;
                case 10: M_STEP(fast_supervised_online_m_step, (wv, L, mb, mom, lr)); break;
                case 11: M_STEP(fast_supervised_online_m_step, (wv, L, mb, mom, lr, bw)); break;
                case 12: M_STEP(fast_supervised_online_m_step, (we)); break;
                case 13: M_STEP(fast_supervised_online_m_step, (we, L)); break;
                case 14: M_STEP(fast_supervised_online_m_step, (we, L, mb)); break;
                case 15: M_STEP(fast_supervised_online_m_step, (we, L, mb, mom)); break;
                case 16: M_STEP(fast_supervised_online_m_step, (we, L, mb, mom, lr)); break;
                case 17: M_STEP(fast_supervised_online_m_step, (we, L, mb, mom, lr, bw)); break;
            }
            break;
        }
        default: break;
    }
#undef E_STEP
#undef M_STEP
    b.set_iterations(iters).set_workers(1);
    if (!first) topics();
    LDA<S> l = built<S>(b);
    auto q = clone<S>(*src);
    LDA<S> ref(q, make_e<S>(cfg), make_m<S>(cfg, d.C), iters, 1);
    std::vector<double> la, lb;
    auto listen = [&](LDA<S> &x, std::vector<double> &to) {
        x.get_event_dispatcher()->add_listener([&to](std::shared_ptr<events::Event> ev) {
            if (ev->id() == "ExpectationProgressEvent") to.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood());
            else if (ev->id() == "MaximizationProgressEvent") to.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood());
            else to.push_back(-12345.5);
        });
    };
    listen(l, la);
    listen(ref, lb);
    l.fit(d.X, d.y);
    ref.fit(d.X, d.y);
    std::string who = fmt("%s %s%s iterations=%d %s", sname<S>(), deflt ? "default " : some ? fmt("%d/%d arguments given ", ge, gm).c_str() : "", cfg.str().c_str(), iters, d.desc.c_str());
    auto p = params_of<S>(l);
    VF_CHECK(rel_diff(p->beta, q->beta, 1e-6) <= 64 * eps<S>() && rel_diff(p->eta, q->eta, 1e-3) <= 64 * eps<S>() && same_bits(p->alpha, q->alpha), "steps",
             "%s: the model built learns topics/classes that differ by %g/%g from one made of the steps asked for", who.c_str(), rel_diff(p->beta, q->beta, 1e-6), rel_diff(p->eta, q->eta, 1e-3));
    bool same = la.size() == lb.size();
    for (size_t i = 0; same && i < la.size(); i++) same = (std::isnan(la[i]) && std::isnan(lb[i])) || la[i] == lb[i] || std::fabs(la[i] - lb[i]) <= 1e3 * eps<S>() * (1 + std::fabs(lb[i]));
    VF_CHECK(same, "steps-events", "%s: the model built reports differently (%zu and %zu events)", who.c_str(), la.size(), lb.size());
    run().count(deflt ? "default steps compared" : some ? "partly default steps compared" : "steps compared");
    run().count(std::string("steps:") + kind_name(kind));
    run().distinct(mix(hash_str(who)));
}

// iterations and workers
template <class S> class MeetE : public em::EStepInterface<S> {
  public:
    MeetE(int want) : want_(want) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document>, const std::shared_ptr<parameters::Parameters> p) override {
        {
            std::unique_lock<std::mutex> l(m_);
            calls++;
            inside_++;
            most = std::max(most, inside_);
            cv_.notify_all();
            if (most < want_ && !gave_up) if (!cv_.wait_for(l, std::chrono::seconds(25), [&] { return most >= want_ || gave_up; })) { gave_up = true; cv_.notify_all(); }
            run().tick();
        }
        if (most >= want_) std::this_thread::sleep_for(std::chrono::microseconds(200));
        { std::lock_guard<std::mutex> l(m_); inside_--; }
        auto mp = std::static_pointer_cast<Params<S>>(p);
        return std::make_shared<VP<S>>(Vec<S>(mp->alpha), Mat<S>(Mat<S>::Zero(mp->alpha.rows(), mp->beta.cols())));
    }
    void e_step() override { epochs++; }
    int calls = 0, most = 0, epochs = 0;
    bool gave_up = false;

  private:
    int want_, inside_ = 0;
    std::mutex m_;
    std::condition_variable cv_;
};
template <class S> class CountM : public em::MStepInterface<S> {
  public:
    void m_step(std::shared_ptr<parameters::Parameters>) override { steps++; }
    void doc_m_step(const std::shared_ptr<corpus::Document>, const std::shared_ptr<parameters::Parameters>, std::shared_ptr<parameters::Parameters>) override { docs++; }
    int steps = 0, docs = 0;
};

template <class S> void numbers(Rng &r) {
    int W = r.uni(1, 12), I = r.uni(1, 30), D = W + r.uni(0, 20);
    bool dw = r.chance(0.15), di = r.chance(0.3);
    if (dw) { W = std::max(1u, std::thread::hardware_concurrency()); D = W + r.uni(0, 5); }
    if (di) I = 20;
    if (!dw && r.chance(0.1)) { W = r.uni(13, 100); D = W + r.uni(0, 5); if (!di) I = r.uni(1, 3); }
    if (!di && r.chance(0.1)) I = r.pick(std::vector<int>{100, 127, 128, 255, 256, 257, 300, 1000, 1025});
    if (W > 128) throw Skip();
    auto e = std::make_shared<MeetE<S>>(W);
    auto m = std::make_shared<CountM<S>>();
    LDABuilder<S> b;
    if (r.chance(0.5)) { b.set_e(e).set_m(m); }
    if (!di) b.set_iterations(I);
    if (!dw) b.set_workers(W);
    b.initialize_topics_random(4, 2, 3);
    b.set_e(e).set_m(m);
    std::unique_ptr<LDA<S>> l(new LDA<S>(built<S>(b)));
    // an object that was moved is still the one configured
    int moves = r.chance(0.5) ? r.uni(1, 2) : 0;
    for (int i = 0; i < moves; i++) l.reset(new LDA<S>(std::move(*l)));
    MatrixXi X = MatrixXi::Ones(4, D);
    if (r.chance(0.5)) l->fit(X); else l->fit(X, VectorXi(VectorXi::Zero(D)));
    std::string who = fmt("%s workers=%d%s iterations=%d%s documents=%d moved %d times", sname<S>(), W, dw ? " (default)" : "", I, di ? " (default)" : "", D, moves);
    VF_CHECK(m->steps == I && e->calls == I * D && m->docs == I * D, "iterations", "%s: %d updates, %d inferences", who.c_str(), m->steps, e->calls);
    VF_CHECK(e->most == W, "workers", "%s: %d documents were worked on at the same time", who.c_str(), e->most);
    run().count("worker counts");
    run().distinct(who);
}

}  // namespace

int main(int argc, char **argv) {
    Options o;
    o.limit_s = 120;
    return drive(argc, argv, "C15", {
        {"seeded-double", 4000, 100000, seeded<double>},
        {"seeded-float", 2000, 50000, seeded<float>},
        {"frequency", 60, 2000, frequency},
        {"many-double", 20, 600, many_topics<double>},
        {"many-float", 10, 300, many_topics<float>},
        {"random-double", 800, 20000, random_topics<double>},
        {"random-float", 400, 10000, random_topics<float>},
        {"classes-double", 2000, 60000, classes<double>},
        {"classes-float", 1000, 30000, classes<float>},
        {"refused-double", 3000, 60000, refused<double>},
        {"refused-float", 1000, 20000, refused<float>},
        {"steps-double", 4000, 120000, steps<double>},
        {"steps-float", 2000, 60000, steps<float>},
        {"numbers-double", 300, 4000, numbers<double>},
        {"numbers-float", 100, 1000, numbers<float>},
    }, o);
}
