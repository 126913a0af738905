// Executes a plan of array reads and writes with the library and prints what
// it saw. One line per command: "<id> <command> <arguments>".
//
//   write ID FILE N  then N lines "type kind order d0 d1 ... : hex"
//   read  ID FILE what type...      what: m (matrix) r (row major) v (vector) s (fixed 2 columns) p (row vector) q (3 rows) x (2x3)
//   locale ID SEPARATOR N...      the locale (digit groups of N) the library is called under from here on
//   loadlda ID FILE / savelda ID FILE / parse1 ID FILE / parse2 ID FILE
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <locale>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Core>

#include "applications/lda_io.hpp"
#include "ldaplusplus/NumpyFormat.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HOOKS 1
#endif
#endif
#ifdef HOOKS
#include <sanitizer/allocator_interface.h>
static size_t g_now, g_peak;
static bool g_on;
static void on_malloc(const volatile void *p, size_t n) { if (g_on && p) { g_now += n; if (g_now > g_peak) g_peak = g_now; } }
static void on_free(const volatile void *p) {
    if (!g_on || !p) return;
    size_t n = __sanitizer_get_allocated_size(const_cast<const void *>(p));
    g_now = g_now > n ? g_now - n : 0;
}
#else
static size_t g_peak, g_now;
static bool g_on;
#endif

using namespace ldaplusplus;
using numpy_format::NumpyInput;
using numpy_format::NumpyOutput;

static std::string hex(const void *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string s(2 * n, '0');
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++) { s[2 * i] = d[c[i] >> 4]; s[2 * i + 1] = d[c[i] & 15]; }
    return s.empty() ? "-" : s;
}
static std::vector<unsigned char> unhex(const std::string &s) {
    std::vector<unsigned char> v;
    auto f = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    if (s != "-") for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(f(s[i]) * 16 + f(s[i + 1]));
    return v;
}

// programs run under locales that group digits; the library is called with one
// of them, what the tool itself prints and parses is not to depend on it
struct Grouping : std::numpunct<char> {
    Grouping(char sep, std::string groups) : sep_(sep), groups_(std::move(groups)) {}
    char do_thousands_sep() const override { return sep_; }
    std::string do_grouping() const override { return groups_; }
    char do_decimal_point() const override { return sep_ == ',' ? '.' : ','; }
    char sep_;
    std::string groups_;
};
static std::locale g_locale = std::locale::classic();
struct Classic : std::ostringstream { Classic() { imbue(std::locale::classic()); } };

// values row by row whatever the storage order
template <class M> std::string values(const M &m) {
    std::string s;
    if (m.size() > (1 << 22)) return "big";
    for (Eigen::Index i = 0; i < m.rows() && m.cols(); i++)
        for (Eigen::Index j = 0; j < m.cols(); j++) {
            typename M::Scalar v;
            memcpy(&v, &m.coeffRef(i, j), sizeof v);
            s += hex(&v, sizeof v);
        }
    Classic o;
    o << m.rows() << "x" << m.cols() << "=" << (s.empty() ? "-" : s);
    return o.str();
}

template <class T> struct Ops {
    typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Mat;
    typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RMat;
    typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vec;
    typedef Eigen::Matrix<T, Eigen::Dynamic, 2> Two;
    typedef Eigen::Matrix<T, 1, Eigen::Dynamic, Eigen::RowMajor> Row;
    typedef Eigen::Matrix<T, 3, Eigen::Dynamic> Three;
    typedef Eigen::Matrix<T, 2, 3> Fixed;
    typedef Eigen::Matrix<T, 2, 3, Eigen::RowMajor> RFixed;

    static std::string read(std::istream &in, const std::string &file, char what) {
        Classic o;
        if (what == 'f') { Mat m = numpy_format::load<T>(file); return values(m); }
        if (what == 'g') { Vec m = numpy_format::load<T, Eigen::Dynamic, 1>(file); return values(m); }
        if (what == 't') { Mat m = numpy_format::load<T>(in); return values(m); }
        NumpyInput<T> ni;
        in >> ni;
        if (what == 'm') {
            Mat m = ni;
            o << values(m);
        } else if (what == 'r') {
            RMat m = ni;
            o << values(m);
        } else if (what == 'v') {
            Vec m = ni;
            o << values(m);
        } else if (what == 's') {
            Two m = ni;
            o << values(m);
        } else if (what == 'p') {
            Row m = ni;
            o << values(m);
        } else if (what == 'q') {
            Three m = ni;
            o << values(m);
        } else if (what == 'x') {
            Fixed m = ni;
            o << values(m);
        } else {   // raw
            size_t n = 1;
            for (auto d : ni.shape()) n *= d;
            o << (ni.fortran_contiguous() ? "F" : "C");
            for (auto d : ni.shape()) o << "," << d;
            o << "=" << hex(ni.data(), n * sizeof(T));
        }
        return o.str();
    }
    // for arrays too large to pass around as text
    static std::string copy(std::istream &in, std::ostream &out) {
        NumpyInput<T> ni;
        in >> ni;
        Mat m = ni;
        out << NumpyOutput<T>(m);
        return std::to_string(m.rows()) + "x" + std::to_string(m.cols());
    }
    static void write(std::ostream &out, const std::string &file, const std::string &kind, const std::vector<size_t> &shape, const std::vector<unsigned char> &bytes) {
        std::vector<T> data(bytes.size() / sizeof(T));
        if (!data.empty()) memcpy(data.data(), bytes.data(), bytes.size());
        // bytes are in the order the kind asks for
        if (kind == "rawC" || kind == "rawF") { out << NumpyOutput<T>(data.data(), shape, kind == "rawF"); return; }
        size_t r = shape[0], c = shape.size() > 1 ? shape[1] : 1;
        if (kind == "mat" || kind == "save" || kind == "file") {
            Mat m(r, c);
            if (!data.empty()) memcpy(m.data(), data.data(), bytes.size());
            if (kind == "mat") out << NumpyOutput<T>(m);
            else if (kind == "save") numpy_format::save(out, m);
            else numpy_format::save(file, m);
        } else if (kind == "rmat") {
            RMat m(r, c);
            if (!data.empty()) memcpy(m.data(), data.data(), bytes.size());
            out << NumpyOutput<T>(m);
        } else if (kind == "vec") {
            Vec m(r);
            if (!data.empty()) memcpy(m.data(), data.data(), bytes.size());
            out << NumpyOutput<T>(m);
        } else if (kind == "rvec") {
            Row m(c);
            if (!data.empty()) memcpy(m.data(), data.data(), bytes.size());
            out << NumpyOutput<T>(m);
        } else if (kind == "fix") {
            Fixed m;
            memcpy(m.data(), data.data(), bytes.size());
            out << NumpyOutput<T>(m);
        } else if (kind == "rfix") {
            RFixed m;
            memcpy(m.data(), data.data(), bytes.size());
            out << NumpyOutput<T>(m);
        } else throw std::logic_error("unknown kind");
    }
};

struct Type {
    std::string (*read)(std::istream &, const std::string &, char);
    void (*write)(std::ostream &, const std::string &, const std::string &, const std::vector<size_t> &, const std::vector<unsigned char> &);
    std::string (*copy)(std::istream &, std::ostream &);
};
template <class T> Type type() { return {Ops<T>::read, Ops<T>::write, Ops<T>::copy}; }

int main(int argc, char **argv) {
    std::map<std::string, Type> types = {
        {"i1", type<int8_t>()}, {"i2", type<int16_t>()}, {"i4", type<int32_t>()}, {"i8", type<int64_t>()},
        {"u1", type<uint8_t>()}, {"u2", type<uint16_t>()}, {"u4", type<uint32_t>()}, {"u8", type<uint64_t>()},
        {"f4", type<float>()}, {"f8", type<double>()}};
#ifdef HOOKS
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    std::ifstream plan(argv[1]);
    std::string line;
    while (std::getline(plan, line)) {
        std::istringstream l(line);
        std::string cmd, id, file;
        l >> cmd >> id >> file;
        printf("> %s\n", id.c_str());
        fflush(stdout);
        std::vector<std::string> res;
        std::string failure;
        std::vector<std::string> items;
        if (cmd == "write" || cmd == "savelda") {
            int n;
            l >> n;
            for (int i = 0; i < n; i++) { std::getline(plan, line); items.push_back(line); }
        }
        if (cmd == "locale") {
            // file is the separator, then one number per group
            std::string groups;
            int g;
            while (l >> g) groups += static_cast<char>(g);
            g_locale = file == "none" ? std::locale::classic() : std::locale(std::locale::classic(), new Grouping(file[0] == '_' ? ' ' : file[0], groups));
        }
        g_now = g_peak = 0;
        g_on = true;
        std::locale::global(g_locale);
        try {
            if (cmd == "read") {
                std::string what, t;
                l >> what;
                std::ifstream in(file, std::ios::binary);
                while (l >> t) res.push_back(types.at(t).read(in, file, what[0]));
            } else if (cmd == "write") {
                std::unique_ptr<std::ofstream> out;
                for (auto &it : items) {
                    std::istringstream s(it);
                    std::string t, kind, tok, h;
                    std::vector<size_t> shape;
                    s >> t >> kind;
                    while (s >> tok && tok != ":") shape.push_back(std::stoul(tok));
                    s >> h;
                    if (kind != "file" && !out) out.reset(new std::ofstream(file, std::ios::binary));
                    std::ofstream none;
                    types.at(t).write(out ? *out : none, file, kind, shape, unhex(h));
                }
                if (out) { out->close(); if (!*out) throw std::runtime_error("could not write"); }
            } else if (cmd == "copy") {
                std::string t, to;
                l >> to >> t;
                std::ifstream in(file, std::ios::binary);
                std::ofstream out(to, std::ios::binary);
                res.push_back(types.at(t).copy(in, out));
                out.close();
                if (!out) throw std::runtime_error("could not write");
            } else if (cmd == "savelda") {
                auto p = std::make_shared<parameters::SupervisedModelParameters<double>>();
                for (int i = 0; i < 3; i++) {
                    std::istringstream s(items[i]);
                    s.imbue(std::locale::classic());
                    size_t r, c;
                    std::string h;
                    s >> r >> c >> h;
                    auto b = unhex(h);
                    Eigen::MatrixXd m(r, c);
                    if (!b.empty()) memcpy(m.data(), b.data(), b.size());
                    if (i == 0) p->alpha = m; else if (i == 1) p->beta = m; else p->eta = m;
                }
                io::save_lda(file, p);
            } else if (cmd == "loadlda") {
                auto p = io::load_lda(file);
                res.push_back(values(p->alpha));
                res.push_back(values(p->beta));
                res.push_back(values(p->eta));
            } else if (cmd == "parse1") {
                Eigen::MatrixXi X;
                io::parse_input_data(file, X);
                res.push_back(values(X));
            } else if (cmd == "parse2") {
                Eigen::MatrixXi X, y;
                io::parse_input_data(file, X, y);
                res.push_back(values(X));
                res.push_back(values(y));
            }
        } catch (const std::exception &e) {
            failure = e.what();
            for (auto &c : failure) if (c == '\n') c = ' ';
            if (failure.empty()) failure = "?";
        }
        std::locale::global(std::locale::classic());
        g_on = false;
        printf("< %s %zu", id.c_str(), g_peak);
        if (!failure.empty()) printf(" error %s\n", failure.substr(0, 200).c_str());
        else {
            printf(" ok");
            for (auto &r : res) printf(" %s", r.c_str());
            printf("\n");
        }
        fflush(stdout);
    }
    return 0;
}
