// What the console tools promise, done with the library directly: one plan
// line of key=value pairs is one training or transformation. Arrays travel as
// raw bytes, so that nothing depends on the library's own file format.
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "models.hpp"

using namespace vf;

namespace {

std::map<std::string, std::string> a;
long L_(const char *k) { return std::stol(a.at(k)); }
double D_(const char *k) {
    double v = std::stod(a.at(k));
    return a["single"] == "1" ? static_cast<double>(static_cast<float>(v)) : v;
}
bool has(const char *k) { return a.count(k); }

template <class M> M raw(std::istream &in, long r, long c) {
    M m(r, c);
    in.read(reinterpret_cast<char *>(m.data()), sizeof(typename M::Scalar) * m.size());
    if (!in && m.size()) throw std::runtime_error("short raw file");
    return m;
}
template <class M> void put(std::ostream &o, const M &m) { o.write(reinterpret_cast<const char *>(m.data()), sizeof(typename M::Scalar) * m.size()); }

PParams<double> model(const std::string &path) {
    std::ifstream in(path, std::ios::binary);
    int64_t h[3];
    in.read(reinterpret_cast<char *>(h), sizeof h);
    auto p = std::make_shared<Params<double>>();
    p->alpha = raw<Eigen::VectorXd>(in, h[0], 1);
    p->beta = raw<Eigen::MatrixXd>(in, h[0], h[1]);
    p->eta = raw<Eigen::MatrixXd>(in, h[0], h[2]);
    return p;
}

void one() {
    std::string app = a.at("app");
    MatrixXi X;
    VectorXi y;
    {
        std::ifstream in(a.at("data"), std::ios::binary);
        int64_t h[2];
        in.read(reinterpret_cast<char *>(h), sizeof h);
        X = raw<MatrixXi>(in, h[0], h[1]);
        y = raw<VectorXi>(in, h[1], 1);
    }
    std::ofstream out(a.at("out"), std::ios::binary);
    if (app == "transform") {
        auto p = model(a.at("model"));
        LDA<double> l(p, std::make_shared<em::UnsupervisedEStep<double>>(L_("e_it"), D_("e_tol"), 0.0, 0), std::make_shared<em::UnsupervisedMStep<double>>(), 1, L_("workers"));
        Eigen::MatrixXd G = l.transform(X);
        put(out, G);
        return;
    }
    int C = y.maxCoeff() + 1, V = X.rows(), rs = L_("rs");
    std::shared_ptr<em::EStepInterface<double>> e;
    std::shared_ptr<em::MStepInterface<double>> m;
    if (app == "lda") {
        e = std::make_shared<em::UnsupervisedEStep<double>>(L_("e_it"), D_("e_tol"), D_("cl"), rs);
        m = std::make_shared<em::UnsupervisedMStep<double>>();
    } else if (app == "slda") {
        e = std::make_shared<em::SupervisedEStep<double>>(L_("e_it"), D_("e_tol"), L_("fp"), D_("cl"), rs);
        m = std::make_shared<em::SupervisedMStep<double>>(L_("m_it"), D_("m_tol"), D_("L"));
    } else {
        e = std::make_shared<em::FastSupervisedEStep<double>>(L_("e_it"), D_("e_tol"), D_("C"), em::FastSupervisedEStep<double>::Constant, D_("cl"), rs);
        if (app == "fslda") m = std::make_shared<em::FastSupervisedMStep<double>>(L_("m_it"), D_("m_tol"), D_("L"));
        else {
            Eigen::VectorXd w = Eigen::VectorXd::Zero(C);
            for (int i = 0; i < y.rows(); i++) w[y[i]] += 1;
            for (int c = 0; c < C; c++) w[c] = w[c] ? y.rows() / (w[c] * C) : 1;
            m = std::make_shared<em::FastOnlineSupervisedMStep<double>>(w, D_("L"), L_("batch"), D_("mom"), D_("lr"), D_("bw"));
        }
    }
    PParams<double> p;
    if (has("continue")) {
        p = model(a.at("continue"));
        if (app == "lda") p->eta = Eigen::MatrixXd::Zero(p->beta.rows(), 1);
    } else {
        if (has("cfu")) p = model(a.at("cfu"));
        else {
            LDABuilder<double> b;
            if (a.at("init") == "random") b.initialize_topics_random(V, L_("topics"), rs);
            else b.initialize_topics_seeded(X, L_("topics"), 30, rs);
            LDA<double> l = b;
            p = std::make_shared<Params<double>>(*l.model_parameters<Params<double>>());
        }
        p->eta = Eigen::MatrixXd::Zero(p->beta.rows(), app == "lda" ? 1 : C);
    }
    if (has("jitter")) {
        // the same training up to rounding: documents in another order, topics a little off
        Rng r(L_("jitter") * 7919 + 11);
        for (int i = X.cols() - 1; i > 0; i--) {
            int j = r.uni(0, i);
            X.col(i).swap(X.col(j));
            std::swap(y[i], y[j]);
        }
        for (int i = 0; i < p->beta.size(); i++) p->beta.data()[i] *= 1 + 1e-13 * (r.real() - 0.5);
    }
    LDA<double> l(p, e, m, L_("iterations"), L_("workers"));
    int64_t h[4] = {p->beta.rows(), p->beta.cols(), p->eta.cols(), 0};
    put(out, Eigen::Map<Eigen::Matrix<int64_t, 3, 1>>(h));
    auto dump = [&] { put(out, p->alpha); put(out, p->beta); put(out, p->eta); };
    dump();
    double sum = 0;
    long n = 0;
    std::ostringstream log;
    log.precision(17);
    l.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "ExpectationProgressEvent") {
            double x = std::static_pointer_cast<events::ExpectationProgressEvent<double>>(ev)->likelihood();
            if (std::isfinite(x) && x < 0) { sum += x; n++; }
        } else if (ev->id() == "MaximizationProgressEvent") {
            log << " M" << std::static_pointer_cast<events::MaximizationProgressEvent<double>>(ev)->likelihood();
        } else if (ev->id() == "EpochProgressEvent") {
            if (n) log << " E" << sum / n;
            else log << " E-";
            sum = 0; n = 0;
            dump();
        }
    });
    if (app == "lda") l.fit(X); else l.fit(X, y);
    printf("log%s\n", log.str().c_str());
}

}  // namespace

int main(int argc, char **argv) {
    std::ifstream plan(argv[1]);
    std::string line, tok;
    while (std::getline(plan, line)) {
        a.clear();
        std::istringstream s(line);
        while (s >> tok) { size_t e = tok.find('='); a[tok.substr(0, e)] = tok.substr(e + 1); }
        try { one(); } catch (const std::exception &e) { printf("error %s\n", e.what()); return 3; }
    }
    return 0;
}
