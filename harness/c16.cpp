// C16: a corpus stays a faithful collection under any sequence of shuffles.
#include "models.hpp"

using namespace vf;

namespace {

struct Setup {
    MatrixXi X;
    VectorXi y;
    int D, V, copies = 0;
};

// Every document carries its number in its words unless it is a duplicate.
Setup make(Rng &r) {
    Setup s;
    s.D = r.pick(std::vector<int>{1, 2, 3, 5, 17, 40, 120, 400});
    if (r.chance(0.01)) s.D = r.uni(1000, 20000);
    s.V = r.uni(1, 12);
    s.X = MatrixXi::Zero(s.V, s.D);
    s.y = VectorXi(s.D);
    int maxc = r.pick(std::vector<int>{0, 1, 4, 30, 200});
    int style = r.uni(0, 3);
    for (int i = 0; i < s.D; i++) {
        for (int w = 0; w < s.V; w++) s.X(w, i) = r.chance(0.5) ? r.uni(0, 1 << 20) : 0;
        if (style == 1 && r.chance(0.5) && i) { s.X.col(i) = s.X.col(r.uni(0, i - 1)); s.copies++; }
        if (style == 2 && r.chance(0.3)) s.X.col(i).setZero();
        s.y[i] = r.uni(0, maxc);
        if (style == 3 && r.chance(0.5)) s.y[i] = -r.uni(1, 5);
        if (style == 0 && maxc > 1 && s.y[i] % 2) s.y[i]++;    // gaps
    }
    return s;
}

typedef std::pair<std::vector<int>, int> Content;
Content content(const VectorXi &x, int y) { return {std::vector<int>(x.data(), x.data() + x.rows()), y}; }

template <class C> std::vector<Content> observe(const C &c, bool classes, Rng &r) {
    std::vector<Content> res(c.size());
    std::vector<size_t> order(c.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = i;
    if (r.chance(0.5)) r.shuffle(order.begin(), order.end());
    for (size_t i : order) {
        auto d = c.at(i);
        VF_REQUIRE(d != nullptr, "no-document", "document %zu is missing", i);
        int y = 0;
        if (classes) {
            auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(d);
            VF_REQUIRE(cd != nullptr, "document-type", "document %zu has no class", i);
            y = cd->get_class();
        }
        res[i] = content(d->get_words(), y);
    }
    return res;
}

void check_collection(const std::vector<Content> &got, const std::vector<Content> &expected, const std::string &who) {
    auto a = got, b = expected;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VF_REQUIRE(a == b, "collection", "%s: the corpus does not contain exactly its documents with their words and classes", who.c_str());
    run().count("documents compared", a.size());
}

void check_priors(const corpus::ClassificationCorpus &c, const VectorXi &y, const std::string &who) {
    for (int k = 0; k <= y.maxCoeff(); k++) {
        long n = (y.array() == k).count();
        double e = static_cast<double>(n) / y.rows();
        double g = c.get_prior(k);
        VF_REQUIRE(std::fabs(g - e) <= 3e-7 * e, "prior", "%s: the prior of class %d is %.9g instead of %ld/%ld", who.c_str(), k, g, n, (long)y.rows());
        run().count(n ? "priors compared" : "priors of missing classes");
    }
}

template <class C> void history(Rng &r, C &c, C &twin, const Setup &s, bool classes, int seed) {
    std::string who = fmt("D=%d V=%d classes=%d seed=%d", s.D, s.V, classes, seed);
    std::vector<Content> expected;
    for (int i = 0; i < s.D; i++) expected.push_back(content(s.X.col(i), classes ? s.y[i] : 0));
    MatrixXi X0 = s.X;
    VectorXi y0 = s.y;
    VF_REQUIRE(c.size() == (size_t)s.D, "size", "%s: size() is %zu", who.c_str(), c.size());
    auto first = observe(c, classes, r);
    VF_REQUIRE(first == expected, "unshuffled", "%s: an unshuffled corpus is not in the order of its matrix", who.c_str());
    auto held = c.at(r.uni(0, s.D - 1));
    auto held_words = VectorXi(held->get_words());
    std::vector<std::vector<Content>> orders{first};
    int shuffles = r.uni(1, 6);
    std::string hist;
    for (int i = 0; i < shuffles; i++) {
        c.shuffle();
        hist += 's';
        if (r.chance(0.6)) { observe(c, classes, r); hist += 'o'; }   // reading does not change anything
        auto now = observe(c, classes, r);
        check_collection(now, expected, who);
        VF_CHECK(now == observe(c, classes, r), "unstable", "%s: two readings without a shuffle differ", who.c_str());
        orders.push_back(now);
        VF_CHECK(held->get_words() == held_words, "held-document", "%s: a document changes after a shuffle", who.c_str());
    }
    // a function of the seed and the number of shuffles only
    for (int i = 0; i < shuffles; i++) twin.shuffle();
    VF_CHECK(observe(twin, classes, r) == orders.back(), "not-reproducible", "%s: two corpora with the same seed differ after %d shuffles", who.c_str(), shuffles);
    run().count("orders reproduced");
    VF_CHECK(s.X == X0 && s.y == y0, "data-changed", "%s: the data of the user changed", who.c_str());
    // (20! orders: two of a handful being the same does not happen)
    std::set<std::vector<Content>> diff(expected.begin() == expected.end() ? std::set<std::vector<Content>>() : std::set<std::vector<Content>>(orders.begin(), orders.end()));
    std::set<Content> values(expected.begin(), expected.end());
    if (values.size() >= 20) {
        VF_CHECK(diff.size() == orders.size(), "order-repeats", "%s: %zu different orders after %d shuffles", who.c_str(), diff.size(), shuffles);
        run().count("orders that differ", diff.size());
    }
    if (values.size() == expected.size() && s.D >= 20) {
        // documents that stay where they are, and neighbours that stay
        // neighbours: about one of each in a random order
        for (size_t t = 1; t < orders.size(); t++) {
            int fixed = 0, pairs = 0;
            std::map<Content, size_t> at;
            for (int i = 0; i < s.D; i++) { fixed += orders[t][i] == orders[t - 1][i]; at[orders[t - 1][i]] = i; }
            for (int i = 0; i + 1 < s.D; i++) pairs += at[orders[t][i]] + 1 == at[orders[t][i + 1]];
            VF_CHECK(fixed < 18, "order-stays", "%s: shuffle %zu leaves %d documents where they are", who.c_str(), t, fixed);
            VF_CHECK(pairs < 18, "order-stays", "%s: shuffle %zu keeps %d pairs of neighbours", who.c_str(), t, pairs);
        }
    }
    uint64_t h = mix(s.D);
    for (auto &o : orders.back()) for (int v : o.first) h = mix(h + v);
    run().distinct(h);
    run().sample(who + " history=" + hist);
}

void plain_corpus(Rng &r) {
    Setup s = make(r);
    int seed = r.uni(0, 1000);
    corpus::EigenCorpus c(s.X, seed), twin(s.X, seed);
    history(r, c, twin, s, false, seed);
}

void labelled_corpus(Rng &r) {
    Setup s = make(r);
    int seed = r.uni(0, 1000);
    corpus::EigenClassificationCorpus c(s.X, s.y, seed), twin(s.X, s.y, seed);
    std::string who = fmt("D=%d", s.D);
    check_priors(c, s.y, who);
    history(r, c, twin, s, true, seed);
    check_priors(c, s.y, who + " after shuffles");
    // a document knows its corpus
    auto back = c.at(r.uni(0, s.D - 1))->get_corpus<corpus::ClassificationCorpus>();
    VF_REQUIRE(back != nullptr, "document-corpus", "a labelled document does not know its corpus");
    VF_CHECK(back->size() == (size_t)s.D, "document-corpus", "the corpus of a document has size %zu instead of %d", back->size(), s.D);
    check_priors(*back, s.y, who + " through a document");
}

// The ith document is any of the documents with the same probability.
void uniform(Rng &r) {
    int D = r.uni(2, 6), n = 3000;
    MatrixXi X(1, D);
    VectorXi y(D);
    for (int i = 0; i < D; i++) X(0, i) = y[i] = i;
    bool many_seeds = r.chance(0.5), classes = r.chance(0.5);
    std::map<std::vector<int>, int> perms;
    std::vector<std::vector<int>> cnt(D, std::vector<int>(D, 0));
    int seed = r.uni(0, 1 << 20), k = r.uni(1, 3);
    std::unique_ptr<corpus::Corpus> c;
    for (int t = 0; t < n; t++) {
        if (!c || many_seeds) {
            if (classes) c.reset(new corpus::EigenClassificationCorpus(X, y, seed + t));
            else c.reset(new corpus::EigenCorpus(X, seed + t));
            for (int i = 1; i < k; i++) c->shuffle();
        }
        c->shuffle();
        std::vector<int> p;
        for (int i = 0; i < D; i++) { p.push_back(c->at(i)->get_words()[0]); cnt[p.back()][i]++; }
        perms[p]++;
    }
    auto bad = [&](double count, double cells) {
        double m = n / cells, sd = std::sqrt(m * (1 - 1 / cells));
        return std::fabs(count - m) > 8 * sd + 3;
    };
    for (int i = 0; i < D; i++)
        for (int j = 0; j < D; j++)
            VF_REQUIRE(!bad(cnt[i][j], D), "not-uniform", "D=%d %s: document %d is at position %d in %d of %d shuffles", D, many_seeds ? "one shuffle per seed" : "one seed", i, j, cnt[i][j], n);
    double f = std::tgamma(D + 1.0);
    for (auto &p : perms) VF_REQUIRE(!bad(p.second, f), "not-uniform", "D=%d: one of %g orders occurs %d times in %d shuffles", D, f, p.second, n);
    if (D <= 5) VF_CHECK(perms.size() == f, "not-uniform", "D=%d: only %zu of %g orders occur in %d shuffles", D, perms.size(), f, n);
    run().count("shuffles in the frequency counts", n);
    run().distinct(mix(seed) + D);
}

// A corpus that several objects read while one shuffles between epochs: the
// order the training sees.
void seeds_differ(Rng &r) {
    int D = r.uni(25, 60);
    MatrixXi X(1, D);
    for (int i = 0; i < D; i++) X(0, i) = i;
    std::set<std::vector<int>> orders;
    int s0 = r.uni(0, 10000), n = 6;
    for (int s = 0; s < n; s++) {
        corpus::EigenCorpus c(X, s0 + s);
        c.shuffle();
        std::vector<int> p;
        for (int i = 0; i < D; i++) p.push_back(c.at(i)->get_words()[0]);
        orders.insert(p);
    }
    VF_CHECK(orders.size() == (size_t)n, "seeds", "%d seeds give %zu different orders of %d documents", n, orders.size(), D);
    run().count("seeds compared", n);
    run().distinct(mix(s0 * 100 + D));
}

// In corpora of ordinary sizes every document gets everywhere.
void travel(Rng &r) {
    int D = r.chance(0.05) ? r.uni(2000, 9000) : r.uni(20, 700), n = 120, seed = r.uni(0, 1 << 20);
    MatrixXi X(1, D);
    VectorXi y(D);
    for (int i = 0; i < D; i++) X(0, i) = y[i] = i;
    std::unique_ptr<corpus::Corpus> c;
    if (r.chance(0.5)) c.reset(new corpus::EigenClassificationCorpus(X, y, seed));
    else c.reset(new corpus::EigenCorpus(X, seed));
    std::vector<int> quarters(D, 0), first(D);
    std::vector<char> steady(D, 1);
    for (int t = 0; t < n; t++) {
        c->shuffle();
        for (int i = 0; i < D; i++) {
            int w = c->at(i)->get_words()[0];
            quarters[w] |= 1 << (static_cast<long>(i) * 4 / D);
            if (t == 0) first[i] = w;
            steady[i] &= first[i] == w;
        }
    }
    for (int i = 0; i < D; i++) {
        // by accident: 20^-119; 4 (3/4)^120 = 4e-15
        VF_REQUIRE(!steady[i], "order-stays", "D=%d seed=%d: position %d holds the same document after each of %d shuffles", D, seed, i, n);
        VF_REQUIRE(quarters[i] == 15, "order-stays", "D=%d seed=%d: document %d stays out of a quarter of the positions in %d shuffles", D, seed, i, n);
    }
    run().count("documents followed through shuffles", D);
    run().distinct(mix(seed) + D + 5);
}

// More documents than 16 bits count, whose words are their number.
void large(Rng &r) {
    int D = r.pick(std::vector<int>{65536, 65537, r.uni(65538, 140000), r.uni(131073, 300000)});
    MatrixXi X(1, D);
    VectorXi y(D);
    int maxc = r.pick(std::vector<int>{1, 7, 70000});
    for (int i = 0; i < D; i++) { X(0, i) = i; y[i] = r.chance(0.1) ? -1 : r.uni(0, maxc); }
    y[0] = maxc;
    int seed = r.uni(0, 1000), shuffles = r.uni(0, 3);
    bool classes = r.chance(0.7);
    std::unique_ptr<corpus::Corpus> c;
    if (classes) c.reset(new corpus::EigenClassificationCorpus(X, y, seed));
    else c.reset(new corpus::EigenCorpus(X, seed));
    VF_REQUIRE(c->size() == (size_t)D, "size", "size() is %zu instead of %d", c->size(), D);
    std::vector<int> last;
    for (int s = 0; s <= shuffles; s++) {
        if (s) c->shuffle();
        std::vector<int> now(D);
        std::vector<char> seen(D, 0);
        int fixed = 0;
        for (int i = 0; i < D; i++) {
            auto d = c->at(i);
            int w = d->get_words()[0];
            now[i] = w;
            VF_REQUIRE(w >= 0 && w < D && !seen[w], "collection", "D=%d: document %d occurs twice after %d shuffles", D, w, s);
            seen[w] = 1;
            if (classes) {
                auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(d);
                VF_REQUIRE(cd && cd->get_class() == y[w], "collection", "D=%d: document %d has another class after %d shuffles", D, w, s);
            }
            fixed += s ? last[i] == w : w == i;
        }
        if (s) VF_CHECK(fixed < 18, "order-stays", "D=%d: shuffle %d leaves %d documents where they are", D, s, fixed);
        else VF_CHECK(fixed == D, "unshuffled", "D=%d: an unshuffled corpus is not in the order of its matrix", D);
        last = now;
        run().count("documents of large corpora", D);
    }
    if (classes) {
        auto &cc = dynamic_cast<corpus::ClassificationCorpus &>(*c);
        std::vector<long> n(maxc + 1, 0);
        for (int i = 0; i < D; i++) if (y[i] >= 0) n[y[i]]++;
        for (int k = 0; k <= maxc; k += maxc < 100 ? 1 : 997) {
            double e = static_cast<double>(n[k]) / D;
            VF_REQUIRE(std::fabs(cc.get_prior(k) - e) <= 3e-7 * e, "prior", "D=%d: the prior of class %d is %.9g instead of %ld/%d", D, k, (double)cc.get_prior(k), n[k], D);
        }
    }
    run().distinct(mix(seed) + mix(last[0] * 31ul + last[D - 1]));
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C16", {
        {"corpus", 4000, 150000, plain_corpus},
        {"labelled", 6000, 250000, labelled_corpus},
        {"uniform", 160, 6000, uniform},
        {"seeds", 300, 6000, seeds_differ},
        {"travel", 160, 6000, travel},
        {"large", 16, 600, large},
    });
}
