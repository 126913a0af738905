// C18: semi-supervised training uses the labels that are there and ignores the
// ones that are not.
#include "ref.hpp"

using namespace vf;

namespace {

template <class S> struct Log {
    std::vector<double> e, m;
    void attach(events::EventDispatcherInterface &d) {
        d.add_listener([this](std::shared_ptr<events::Event> ev) {
            if (ev->id() == "ExpectationProgressEvent") e.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood());
            else if (ev->id() == "MaximizationProgressEvent") m.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood());
        });
    }
};

template <class S> double tol() { return sizeof(S) == 4 ? 1e-4 : 1e-9; }
bool close(double a, double b, double t) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= t * (1 + std::fabs(b)); }

Data mixed(Rng &r, int mode) {
    DataOpts o;
    o.maxD = 20; o.maxV = 20; o.huge = false;
    outsize(r, o, 0.02, 300, 120);
    Data d = gen_data(r, o);
    int unl = 0;
    double p = r.pick(std::vector<double>{0.1, 0.5, 0.9});
    for (int i = 0; i < d.D; i++)
        if (mode == 2 || (mode == 1 && r.chance(p))) {
            d.y[i] = r.pick(std::vector<int>{-1, -1, -2, -7, std::numeric_limits<int>::min()});
            unl++;
        }
    d.desc += fmt(" without label: %d", unl);
    return d;
}

Cfg config(Rng &r, Kind k) {
    Cfg cfg = gen_cfg(r, k);
    cfg.cl = r.pick(std::vector<double>{0, 1, 1});
    cfg.e_iters = r.uni(1, 8);
    cfg.m_iters = r.uni(1, 8);
    return cfg;
}

// The composed steps against the steps they are made of, document by document.
template <class S> void steps(Rng &r) {
    Data d = mixed(r, 1);
    int K = r.uni(1, 8);
    Cfg cfg = config(r, SEMI), cs = cfg, cu = cfg;
    cs.kind = FSLDA;
    cu.kind = UNSUP;
    auto p = gen_params<S>(r, SEMI, K, d.V, d.C);
    auto e = make_e<S>(cfg), es = make_e<S>(cs), eu = make_e<S>(cu);
    auto m = make_m<S>(cfg, d.C), ms = make_m<S>(cs, d.C), mu = make_m<S>(cu, d.C);
    Log<S> l, ls, lu;
    l.attach(*e->get_event_dispatcher());
    l.attach(*m->get_event_dispatcher());
    ls.attach(*es->get_event_dispatcher());
    ls.attach(*ms->get_event_dispatcher());
    lu.attach(*eu->get_event_dispatcher());
    std::string who = fmt("%s K=%d %s %s", sname<S>(), K, cfg.str().c_str(), d.desc.c_str());
    int epochs = r.uni(1, 4);
    std::string sig;
    for (int ep = 0; ep < epochs; ep++) {
        auto q = clone<S>(*p);
        auto sup = clone<S>(*p), uns = clone<S>(*p);
        int labelled = 0;
        std::vector<int> order(d.D);
        for (int i = 0; i < d.D; i++) order[i] = i;
        r.shuffle(order.begin(), order.end());
        int n = ep ? r.uni(1, d.D) : d.D;      // another number of documents
        for (int j = 0; j < n; j++) {
            int i = order[j];
            bool lab = d.y[i] >= 0;
            auto doc = make_doc(d.X.col(i), d.y[i]);
            size_t n0 = l.e.size();
            auto got = std::static_pointer_cast<VP<S>>(e->doc_e_step(doc, p));
            auto exp = std::static_pointer_cast<VP<S>>((lab ? es : eu)->doc_e_step(doc, p));
            VF_REQUIRE(rel_diff(got->gamma, exp->gamma, 1e-3) <= tol<S>() && rel_diff(got->phi, exp->phi, 1e-3) <= tol<S>(), lab ? "labelled-inference" : "unlabelled-inference",
                       "%s: a document of class %d: gamma %s instead of %s", who.c_str(), d.y[i], show(got->gamma).c_str(), show(exp->gamma).c_str());
            VF_REQUIRE(l.e.size() == n0 + 1, "events", "%s: %zu expectation events for one document", who.c_str(), l.e.size() - n0);
            double le = (lab ? ls : lu).e.back();
            VF_REQUIRE(close(l.e.back(), le, tol<S>()), "likelihood", "%s: a document of class %d reports %.12g instead of %.12g", who.c_str(), d.y[i], l.e.back(), le);
            m->doc_m_step(doc, got, q);
            mu->doc_m_step(doc, got, uns);
            if (lab) { ms->doc_m_step(doc, got, sup); labelled++; }
            run().count(lab ? "labelled documents" : "unlabelled documents");
            sig += lab ? 'l' : 'u';
        }
        e->e_step(); es->e_step(); eu->e_step();
        l.m.clear(); ls.m.clear();
        m->m_step(q);
        mu->m_step(uns);
        VF_REQUIRE(rel_diff(q->beta, uns->beta, 1e-6) <= tol<S>(), "topics", "%s: topics differ from the unsupervised update with the same expectations: %s instead of %s", who.c_str(), show(q->beta).c_str(), show(uns->beta).c_str());
        if (labelled) {
            ms->m_step(sup);
            VF_REQUIRE(rel_diff(q->eta, sup->eta, 0.1) <= tol<S>(), "class-weights", "%s: class weights differ from the supervised update with the labelled documents: %s instead of %s", who.c_str(), show(q->eta).c_str(), show(sup->eta).c_str());
            VF_REQUIRE(l.m.size() == ls.m.size(), "maximisation-events", "%s: %zu maximisation events instead of %zu", who.c_str(), l.m.size(), ls.m.size());
            for (size_t i = 0; i < l.m.size(); i++) VF_REQUIRE(close(l.m[i], ls.m[i], tol<S>()), "maximisation-events", "%s: event %zu reports %.12g instead of %.12g", who.c_str(), i, l.m[i], ls.m[i]);
            run().count("class weights compared");
        } else {
            VF_REQUIRE(same_bits(q->eta, p->eta), "class-weights-without-labels", "%s: no labelled document, but class weights change to %s", who.c_str(), show(q->eta).c_str());
            run().count("epochs without labels");
        }
        VF_REQUIRE(same_bits(q->alpha, p->alpha), "alpha", "%s: the prior changes", who.c_str());
        p = q;
        sig += '|';
    }
    run().distinct(sig + who);
    run().sample(who + " " + sig);
}

// Through the library: all labelled = fast supervised, none = unsupervised.
template <class S> void library(Rng &r) {
    int mode = r.chance(0.5) ? 0 : 2;
    Data d = mixed(r, mode);
    Cfg cfg = config(r, SEMI), ref = cfg;
    ref.kind = mode == 0 ? FSLDA : UNSUP;
    int K = r.uni(1, 8);
    auto p = gen_params<S>(r, SEMI, K, d.V, d.C);
    auto q = clone<S>(*p), start = clone<S>(*p);
    int W = r.chance(0.5) ? 1 : r.uni(2, 4);
    // documents arrive in any order with several workers: sums are compared
    // after one epoch only, where rounding has not been amplified
    int epochs = W == 1 ? r.uni(1, 5) : 1;
    LDA<S> a(p, make_e<S>(cfg), make_m<S>(cfg, d.C), epochs, W), b(q, make_e<S>(ref), make_m<S>(ref, d.C), epochs, 1);
    Log<S> la, lb;
    la.attach(*a.get_event_dispatcher());
    lb.attach(*b.get_event_dispatcher());
    std::string who = fmt("%s K=%d workers=%d epochs=%d %s %s", sname<S>(), K, W, epochs, cfg.str().c_str(), d.desc.c_str());
    if (r.chance(0.5)) {
        a.fit(d.X, d.y);
        b.fit(d.X, d.y);
    } else {
        for (int i = 0; i < epochs; i++) { a.partial_fit(d.X, d.y); b.partial_fit(d.X, d.y); }
    }
    VF_REQUIRE(rel_diff(p->beta, q->beta, 1e-6) <= tol<S>(), mode ? "none-labelled-topics" : "all-labelled-topics", "%s: topics %s instead of %s", who.c_str(), show(p->beta).c_str(), show(q->beta).c_str());
    if (mode == 2) {
        VF_REQUIRE(same_bits(p->eta, start->eta), "none-labelled-class-weights", "%s: class weights change without labels to %s", who.c_str(), show(p->eta).c_str());
        run().count("trainings without labels");
    } else {
        if (W == 1) VF_REQUIRE(rel_diff(p->eta, q->eta, 0.1) <= tol<S>(), "all-labelled-class-weights", "%s: class weights %s instead of %s", who.c_str(), show(p->eta).c_str(), show(q->eta).c_str());
        run().count("trainings with all labels");
    }
    VF_REQUIRE(la.e.size() == lb.e.size(), "event-count", "%s: %zu expectation events instead of %zu", who.c_str(), la.e.size(), lb.e.size());
    auto key = [](double v) { return std::isnan(v) ? -1e300 : v; };
    auto less = [&](double x, double z) { return key(x) < key(z); };
    std::sort(la.e.begin(), la.e.end(), less);
    std::sort(lb.e.begin(), lb.e.end(), less);
    for (size_t i = 0; i < la.e.size(); i++) VF_REQUIRE(close(la.e[i], lb.e[i], 100 * tol<S>()), "likelihoods", "%s: likelihood %.12g instead of %.12g", who.c_str(), la.e[i], lb.e[i]);
    run().distinct(who);
}

// A label only matters for the document that carries it: taking the label off
// an unlabelled document's neighbours never changes its inference, and any
// negative class means the same.
template <class S> void negative(Rng &r) {
    Data d = mixed(r, 1);
    Cfg cfg = config(r, SEMI);
    int K = r.uni(1, 8);
    auto start = gen_params<S>(r, SEMI, K, d.V, d.C);
    auto p = clone<S>(*start), q = clone<S>(*start);
    int epochs = r.uni(1, 4);
    LDA<S> a(p, make_e<S>(cfg), make_m<S>(cfg, d.C), epochs, 1), b(q, make_e<S>(cfg), make_m<S>(cfg, d.C), epochs, 1);
    VectorXi y2 = d.y;
    for (int i = 0; i < d.D; i++) if (y2[i] < 0) y2[i] = -1 - r.uni(0, 1000000);
    a.fit(d.X, d.y);
    b.fit(d.X, y2);
    std::string who = fmt("%s K=%d epochs=%d %s %s", sname<S>(), K, epochs, cfg.str().c_str(), d.desc.c_str());
    VF_REQUIRE(rel_diff(p->beta, q->beta, 1e-6) <= tol<S>() && rel_diff(p->eta, q->eta, 0.1) <= tol<S>(), "kind-of-negative", "%s: another negative class gives another model", who.c_str());
    run().count("trainings with other negative classes");
    run().distinct(who);
}

}  // namespace

int main(int argc, char **argv) {
    return drive(argc, argv, "C18", {
        {"steps-double", 12000, 150000, steps<double>},
        {"steps-float", 6000, 60000, steps<float>},
        {"library-double", 9000, 100000, library<double>},
        {"library-float", 4500, 50000, library<float>},
        {"negative-double", 3000, 30000, negative<double>},
        {"negative-float", 1500, 15000, negative<float>},
    });
}
