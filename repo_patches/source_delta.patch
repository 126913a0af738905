From f5f33c101fc4d23021f4435da6518d1b55cf59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:11 +0000
Subject: [PATCH 01/24] fix: do not write out of bounds counting the priors of
 unlabeled documents

---
 src/ldaplusplus/Document.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..3e89d62 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,13 +98,15 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(std::max(y.maxCoeff()+1, 0))
 {
+    // negative classes mark unlabeled documents and have no prior
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        if (y_[i] >= 0)
+            priors_[y_[i]] ++;
     }
-    priors_.array() /= priors_.sum();
+    priors_.array() /= y_.rows();
 }
 
 size_t EigenClassificationCorpus::size() const {
-- 
2.43.0


From 4c21d92485b44f7cb4cb707c601f92c6ded921eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:31 +0000
Subject: [PATCH 02/24] fix: write back the byte swapped values when reading
 foreign endian numpy arrays

---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From fadec1e4b16e9b46e58851a8e7ca6de949d86544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:01 +0000
Subject: [PATCH 03/24] fix: reject truncated or malformed numpy files instead
 of reading out of bounds

---
 include/ldaplusplus/NumpyFormat.hpp | 106 ++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 31 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..34a65a1 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -2,9 +2,12 @@
 #define _LDAPLUSPLUS_NUMPY_FORMAT_HPP_
 
 
+#include <algorithm>
 #include <cstdint>
 #include <fstream>
 #include <memory>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -236,11 +239,19 @@ namespace numpy_format {
             template <int Rows, int Cols, int Options>
             operator Eigen::Matrix<Scalar, Rows, Cols, Options>() const {
                 // get the needed rows, cols
-                int rows = shape_[0];
-                int cols = 1;
+                Eigen::Index rows = (shape_.empty()) ? 1 : shape_[0];
+                Eigen::Index cols = 1;
                 for (size_t i=1; i<shape_.size(); i++) {
                     cols *= shape_[i];
                 }
+                if (
+                    (Rows != Eigen::Dynamic && rows != Rows) ||
+                    (Cols != Eigen::Dynamic && cols != Cols)
+                ) {
+                    throw std::runtime_error(
+                        "The shape of the array is not the one requested"
+                    );
+                }
 
                 Eigen::Matrix<Scalar, Rows, Cols, Options> matrix(
                     rows,
@@ -248,9 +259,9 @@ namespace numpy_format {
                 );
 
                 // copy the data by hand for simplicity
-                for (int i=0; i<cols; i++) {
-                    for (int j=0; j<rows; j++) {
-                        int idx = (fortran_) ? i*rows + j : j*cols + i;
+                for (Eigen::Index i=0; i<cols; i++) {
+                    for (Eigen::Index j=0; j<rows; j++) {
+                        Eigen::Index idx = (fortran_) ? i*rows + j : j*cols + i;
 
                         matrix(j, i) = data_[idx];
                     }
@@ -279,11 +290,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -292,10 +298,26 @@ namespace numpy_format {
                         "The file is empty and cannot be read"
                     );
                 }
+                if (
+                    is.gcount() != 8 ||
+                    std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY"
+                ) {
+                    throw std::runtime_error(
+                        "The file is not in the numpy format"
+                    );
+                }
+                if (MAGIC_AND_VERSION[6] != 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
 
                 // read the header len
                 uint16_t header_len;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
+                if (is.gcount() != 2) {
+                    throw std::runtime_error("The header is truncated");
+                }
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
                 }
@@ -303,8 +325,21 @@ namespace numpy_format {
                 // read the header
                 std::vector<char> buffer(header_len+1);
                 is.read(&buffer[0], header_len);
+                if (is.gcount() != header_len) {
+                    throw std::runtime_error("The header is truncated");
+                }
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
+                size_t shape_start = header.find_last_of('(');
+                size_t shape_end = header.find_last_of(')');
+                if (
+                    header.size() < 35 ||
+                    shape_start == std::string::npos ||
+                    shape_end == std::string::npos ||
+                    shape_end < shape_start
+                ) {
+                    throw std::runtime_error("The header is malformed");
+                }
 
                 // we can parse the header efficiently using the fact that the
                 // specification requires the dictionary to be passed by
@@ -325,36 +360,45 @@ namespace numpy_format {
                 // parse contiguity type
                 data.fortran_ = header[34] == 'T';
 
-                // parse shape
-                std::string shape = header.substr(
-                    header.find_last_of('(')+1,
-                    header.find_last_of(')')
+                // parse shape and compute the total size of the data
+                std::istringstream shape(
+                    header.substr(shape_start+1, shape_end-shape_start-1)
                 );
-                try {
-                    while (true) {
-                        size_t processed;
-                        data.shape_.push_back(std::stoi(shape, &processed));
+                size_t N = 1;
+                size_t limit = PTRDIFF_MAX / sizeof(Scalar);
+                int dimension;
+                char comma;
+                while (shape >> dimension) {
+                    if (dimension > 0)
+                        limit /= dimension;
+                    if (dimension < 0 || limit == 0) {
+                        throw std::runtime_error("The shape is not supported");
+                    }
+                    data.shape_.push_back(dimension);
+                    N *= dimension;
 
-                        // +2 to account for the comma and the space
-                        shape = shape.substr(processed + 2);
+                    if (shape >> comma && comma != ',') {
+                        throw std::runtime_error("The shape is malformed");
                     }
-                } catch (const std::invalid_argument&) {
-                    // that's ok it means we finished parsing the tuple
                 }
-
-                // compute the total size of the data
-                int N = 1;
-                for (auto c : data.shape_) {
-                    N *= c;
+                if (!shape.eof()) {
+                    throw std::runtime_error("The shape is malformed");
                 }
 
-                // read the data
-                data.data_.resize(N);
-                is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                // read the data in chunks, so that we do not allocate space
+                // for more than what is actually there
+                for (size_t start=0; start<N; start=data.data_.size()) {
+                    data.data_.resize(start + std::min<size_t>(N-start, 1 << 20));
+                    std::streamsize bytes = (data.data_.size()-start) * sizeof(Scalar);
+                    is.read(reinterpret_cast<char *>(&data.data_[start]), bytes);
+                    if (is.gcount() != bytes) {
+                        throw std::runtime_error("The data are truncated");
+                    }
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-                    swap_endianess(&data.data_[0], N);
+                    swap_endianess(data.data_.data(), N);
                 }
 
                 return is;
-- 
2.43.0


From 34322b363a073869195c23572578034c38473e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:01 +0000
Subject: [PATCH 04/24] fix: report models and arrays that could not be written
 to disk

---
 include/ldaplusplus/NumpyFormat.hpp | 4 ++++
 src/applications/lda_io.cpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 34a65a1..031cffa 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -430,6 +430,10 @@ namespace numpy_format {
         );
 
         save(out_stream, matrix);
+        out_stream.close();
+        if (!out_stream) {
+            throw std::runtime_error("The array could not be written to " + save_path);
+        }
     }
 
 
diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 4b66a23..3573cf5 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -68,6 +68,10 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->alpha);
     model << numpy_format::NumpyOutput<double>(model_parameters->beta);
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
+    model.close();
+    if (!model) {
+        throw std::runtime_error("The model could not be written to " + model_path);
+    }
 }
 
 std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(
-- 
2.43.0


From 9784cc7cd95eb43b6f24fa5fbb9c1dbe1557dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 05/24] fix: accumulate the reported likelihood in floating
 point instead of int

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From 83fcb631e75102b97bddfff2bbbf5292d340e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 06/24] fix: load the model passed to
 --continue_from_unsupervised

---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From 7b05c57ef676ece1fa023a744dfc1192aa7f42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 07/24] fix: use the E step tolerance to check the convergence
 of multinomial supervised LDA

---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From 1df46f250426d957c945c0cded6777b4bb190d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 08/24] fix: use the class weights in the online M step

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 9228c2109d017d1d64e6124c3fce5f0113aa5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:16 +0000
Subject: [PATCH 09/24] fix: do not index the exp lookup table with NaN

---
 include/ldaplusplus/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/utils.hpp b/include/ldaplusplus/utils.hpp
index ab772c7..ec25096 100644
--- a/include/ldaplusplus/utils.hpp
+++ b/include/ldaplusplus/utils.hpp
@@ -362,7 +362,8 @@ static inline Scalar fast_exp(Scalar x) {
     if (x < 0)
         return 1/fast_exp(-x);
 
-    if (x > 100)
+    // written like this so that NaN falls here as well
+    if (!(x <= 100))
         return std::exp(x);
 
     int cnt = 0;
-- 
2.43.0


From debe2fbb97f824ca22c4573e33c27519fe36151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:59 +0000
Subject: [PATCH 10/24] fix: documents without words should not crash or poison
 supervised models

The variance of long documents no longer overflows int either.
---
 src/ldaplusplus/LDA.cpp                          | 3 ++-
 src/ldaplusplus/e_step_utils.cpp                 | 8 +++++++-
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 4 +++-
 src/ldaplusplus/em/SupervisedEStep.cpp           | 4 +++-
 src/ldaplusplus/em/SupervisedMStep.cpp           | 6 ++++--
 5 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..a68c191 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -6,6 +6,7 @@
 
 #include "ldaplusplus/LDA.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 
@@ -193,7 +194,7 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {
     // the linear model is trained on
     // E_q[\bar z] = \fraction{\gamma - \alpha}{\sum_i \gamma_i}
     MatrixX expected_z_bar = X.colwise() - model->alpha;
-    expected_z_bar.array().rowwise() /= expected_z_bar.array().colwise().sum();
+    math_utils::normalize_cols(expected_z_bar);
 
     // finally return the linear scores like a boss
     return model->eta.transpose() * expected_z_bar;
diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..7697967 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/e_step_utils.hpp"
 #include "ldaplusplus/utils.hpp"
 
@@ -87,6 +89,10 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    if (n < 0) {
+        // there are no words so all the classes are equally probable
+        return likelihood - std::log(static_cast<Scalar>(eta.cols()));
+    }
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -156,7 +162,7 @@ Scalar compute_supervised_correspondence_likelihood(
     likelihood += (phi_scaled.colwise() * eta.col(y).array().log()).sum();
 
     // E_q[log p(\lambda | N)]
-    likelihood += -std::log(X.sum());
+    likelihood += -std::log(std::max(X.sum(), 1));
 
     // E_q[log p(\eta | \mu)]
     int num_classes = eta.cols();
diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..508823d 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -74,7 +74,9 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    Scalar words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0)
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..a9ab94c 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/events/ProgressEvents.hpp"
 #include "ldaplusplus/em/SupervisedEStep.hpp"
 #include "ldaplusplus/e_step_utils.hpp"
@@ -30,7 +32,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
     const Eigen::VectorXi &X = doc->get_words();
     int num_words = X.sum();
     int voc_size = X.rows();
-    VectorX X_ratio = X.cast<Scalar>() / num_words;
+    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);
 
     // Get the document's class
     int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..308c391 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -52,12 +52,14 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // get the expected_z_bar
     expected_z_bar_.col(docs_) = gamma - alpha;
-    expected_z_bar_.col(docs_).array() /= N;
+    if (N > 0)
+        expected_z_bar_.col(docs_).array() /= N;
 
     // get the variance_z_bar
     MatrixX phi_scaled = phi.array().rowwise() * X.cast<Scalar>().array().transpose();
     variance_z_bar_[docs_] = phi_scaled * phi_scaled.transpose();
-    variance_z_bar_[docs_] *= 1.0/(N * N);
+    if (N > 0)
+        variance_z_bar_[docs_] /= static_cast<Scalar>(N) * N;
 
     docs_ += 1;
 }
-- 
2.43.0


From e9ff0e7e188a04a755ebc6f6e240c7557b97a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:25 +0000
Subject: [PATCH 11/24] fix: topics without any words assigned should not
 become NaN

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 8 ++++----
 src/ldaplusplus/em/UnsupervisedMStep.cpp         | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 508823d..f463925 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -3,6 +3,7 @@
 #include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
 #include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -105,10 +106,9 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
-    beta.array() = (
-        beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
-    );
+    MatrixX beta_mle = b_;
+    math_utils::normalize_rows(beta_mle);
+    beta = beta_weight_ * beta + (1-beta_weight_) * beta_mle;
 
     // update the eta
     optimization::MultinomialLogisticRegression<Scalar> mlr(
diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..9003021 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -1,4 +1,5 @@
 #include "ldaplusplus/em/UnsupervisedMStep.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -9,8 +10,9 @@ void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
     // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    MatrixX &beta = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta;
+    beta = b_;
+    math_utils::normalize_rows(beta);
 
     b_.fill(0);
 }
-- 
2.43.0


From b183a05d2cbe54df284a4ead95b14c985759bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:49 +0000
Subject: [PATCH 12/24] fix: the Armijo line search should not take a step that
 it has not evaluated

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..8eb544f 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -119,8 +119,9 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
             ParameterType x_copy(x0.rows(), x0.cols());
             Scalar value_x0 = problem.value(x0);
             Scalar decrease = beta_ * (grad_x0.array() * direction.array()).sum();
-            Scalar value = value_x0;
-            Scalar a = 1.0/tau_;
+            Scalar a = 1.0;
+            x_copy = x0 - a * direction;
+            Scalar value = problem.value(x_copy);
 
             while (value > value_x0 - a * decrease) {
                 a *= tau_;
-- 
2.43.0


From f3ed0cb17006b460a1784f437e4b5b9109d03903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 13/24] fix: pass the gradient norm of the current position to
 the progress callback

It used to be the norm of uninitialized memory in the first call.
---
 include/ldaplusplus/optimization/GradientDescent.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index 8eb544f..0c6a49a 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -188,6 +188,8 @@ class GradientDescent
             // allocate memory for the gradient
             ParameterType grad(x0.rows(), x0.cols());
 
+            problem.gradient(x0, grad);
+
             // Keep the value in this variable
             Scalar value = problem.value(x0);
 
@@ -196,8 +198,8 @@ class GradientDescent
 
             // Whether we stop or not is decided by someone else
             while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
-                problem.gradient(x0, grad);
                 value = line_search_->search(problem, x0, grad, grad);
+                problem.gradient(x0, grad);
             }
         }
 
-- 
2.43.0


From 07bf7891653d9fbf2515501dc8bd3dd85ca1ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:45 +0000
Subject: [PATCH 14/24] fix: weight the bound on the likelihood of a document
 by its word counts

---
 src/ldaplusplus/e_step_utils.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 7697967..5cf07b7 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -21,9 +21,6 @@ Scalar compute_unsupervised_likelihood(
 
     Scalar likelihood = 0;
 
-    // Make sure we ignore phi for words that are not in the document
-    MatrixX<Scalar> phi2 = phi.array().rowwise() * (X.array() != 0).cast<Scalar>().transpose();
-
     // \Psi(\gamma) - \Psi(\sum_j \gamma)
     VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma).array() - math_utils::digamma(gamma.sum());
 
@@ -32,16 +29,16 @@ Scalar compute_unsupervised_likelihood(
     likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();
 
     // E_q[log p(z | \theta)]
-    likelihood += (phi2.transpose() * t1).sum();
+    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
+    likelihood += (phi_scaled.matrix().transpose() * t1).sum();
 
     // E_q[log p(w | z, \beta)]
-    auto phi_scaled = phi.array().rowwise() * X.cast<Scalar>().transpose().array();
     likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();
 
     // H(q)
     likelihood += -((gamma.array() - 1).matrix().transpose() * t1).value();
     likelihood += -std::lgamma(gamma.sum()) + gamma.unaryExpr(cwise_lgamma).sum();
-    likelihood += -(phi2.array() * (phi2.array() + 1e-44).log()).sum();
+    likelihood += -(phi_scaled * (phi.array() + 1e-44).log()).sum();
     
     return likelihood;
 }
-- 
2.43.0


From 8006a44703172f41e17b6504927b23c6ea4bfe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:09 +0000
Subject: [PATCH 15/24] fix: words unknown to every topic should not turn
 supervised LDA to NaN

---
 src/ldaplusplus/e_step_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 5cf07b7..15a5a24 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -264,7 +264,13 @@ void compute_supervised_phi_gamma(
             //    psi_gamma + X_ratio[n]*eta.col(y) - h * t
             //).array().exp();
 
-            phi.col(n).array() /= phi.col(n).sum();
+            // keep phi if no topic can generate this word
+            Scalar s = phi.col(n).sum();
+            if (s == 0) {
+                phi.col(n) = old_phi_n;
+                break;
+            }
+            phi.col(n).array() /= s;
         }
 
         // Recompute the products with the updated phi
-- 
2.43.0


From 8f6d6ebc5aa2822073c4d9973423d40e4c66b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:14 +0000
Subject: [PATCH 16/24] fix: do not compute the likelihood from an
 uninitialized h

When the E step stops before its first iteration h is never computed.
---
 src/ldaplusplus/em/SupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index a9ab94c..a49f2a2 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -81,7 +81,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
         this->get_event_dispatcher()->
             template dispatch<events::ExpectationProgressEvent<Scalar> >(
                 e_step_utils::compute_supervised_likelihood<Scalar>(
-                    X, y, alpha, beta, eta, phi, gamma, h
+                    X, y, alpha, beta, eta, phi, gamma
                 )
             );
     } else {
-- 
2.43.0


From 7349139fd38353600af27231ce827d690fd85bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 17/24] fix: do not decrement the begin iterator when removing
 the first listener

---
 src/ldaplusplus/events/Events.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..c8d898b 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -77,10 +77,11 @@ void ThreadSafeEventDispatcher::process_events() {
 
         std::lock(l1, l2);
 
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
+        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
             if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                 l = listeners_.erase(l);
-                l--;
+            } else {
+                l++;
             }
         }
 
-- 
2.43.0


From 7fff7dac4ccde253e37fa96fae485b383ac574dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:24 +0000
Subject: [PATCH 18/24] fix: do not fit eta when there are no labeled documents

---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..d219f3a 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -60,6 +60,10 @@ void FastSupervisedMStep<Scalar>::m_step(
     UnsupervisedMStep<Scalar>::m_step(
         parameters
     );
+    // without any labeled documents there is nothing to learn for eta
+    if (docs_ == 0)
+        return;
+
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
     // resize the member variables to fit the documents we 've seen so far in
-- 
2.43.0


From d4b0f9feeb5e44e51603b897878a636617b17cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:32 +0000
Subject: [PATCH 19/24] fix: use at least one worker instead of waiting forever

---
 src/ldaplusplus/LDA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index a68c191..07f7433 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -22,7 +22,7 @@ LDA<Scalar>::LDA(
     e_step_(e_step),
     m_step_(m_step),
     iterations_(iterations),
-    workers_(workers),
+    workers_(std::max<size_t>(workers, 1)),
     event_dispatcher_(std::make_shared<events::SameThreadEventDispatcher>())
 {
     set_up_event_dispatcher();
-- 
2.43.0


From 1616f09d995024cded22540b11a20e75ddced890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:29 +0000
Subject: [PATCH 20/24] fix: do not lose short documents to underflow when
 there are many topics

---
 src/ldaplusplus/e_step_utils.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 15a5a24..dc2556c 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -306,7 +306,11 @@ void compute_unsupervised_phi(
     auto cwise_digamma = math_utils::CwiseDigamma<Scalar>();
     auto cwise_fast_exp = math_utils::CwiseFastExp<Scalar>();
 
-    auto exp_psi_gamma = gamma.unaryExpr(cwise_digamma).unaryExpr(cwise_fast_exp).array();
+    // subtract the max so that at least one topic doesn't underflow
+    VectorX<Scalar> psi_gamma = gamma.unaryExpr(cwise_digamma);
+    psi_gamma.array() -= psi_gamma.maxCoeff();
+
+    auto exp_psi_gamma = psi_gamma.unaryExpr(cwise_fast_exp).array();
     phi = beta.array().colwise() * exp_psi_gamma;
     //phi = phi.array().rowwise() / phi.colwise().sum().array();
     math_utils::normalize_cols(phi);
@@ -342,9 +346,11 @@ void compute_supervised_approximate_phi(
     if (max_eta > 0)
         eta_scaled /= max_eta;
 
-    phi = beta.array().colwise() * (
-        psi_gamma + C*(eta_scaled.col(y) - eta_scaled * softmax_eta_z).array()
-    ).unaryExpr(cwise_fast_exp).array();
+    // subtract the max so that at least one topic doesn't underflow
+    VectorX<Scalar> log_phi = psi_gamma + C*(eta_scaled.col(y) - eta_scaled * softmax_eta_z).array();
+    log_phi.array() -= log_phi.maxCoeff();
+
+    phi = beta.array().colwise() * log_phi.unaryExpr(cwise_fast_exp).array();
     //phi = phi.array().rowwise() / phi.colwise().sum().array();
     math_utils::normalize_cols(phi);
 }
@@ -363,11 +369,12 @@ void compute_supervised_multinomial_phi(
     auto cwise_fast_exp = math_utils::CwiseFastExp<Scalar>();
 
     auto t1 = gamma.unaryExpr(cwise_digamma).array();
-    auto t2 = math_utils::digamma(gamma.sum()) + 1;
 
-    phi = beta.array().colwise() * (
-        (eta_weight*eta.col(y).array().log() + t1 - t2).unaryExpr(cwise_fast_exp).array()
-    );
+    // subtract the max so that at least one topic doesn't underflow
+    VectorX<Scalar> log_phi = eta_weight*eta.col(y).array().log() + t1;
+    log_phi.array() -= log_phi.maxCoeff();
+
+    phi = beta.array().colwise() * log_phi.unaryExpr(cwise_fast_exp).array();
     //phi = phi.array().rowwise() / phi.colwise().sum().array();
     math_utils::normalize_cols(phi);
 }
@@ -385,9 +392,11 @@ void compute_supervised_correspondence_phi(
     auto cwise_digamma = math_utils::CwiseDigamma<Scalar>();
     auto cwise_fast_exp = math_utils::CwiseFastExp<Scalar>();
 
-    auto t1 = gamma.unaryExpr(cwise_digamma).array();
+    // subtract the max so that at least one topic doesn't underflow
+    VectorX<Scalar> t1 = gamma.unaryExpr(cwise_digamma);
+    t1.array() -= t1.maxCoeff();
 
-    phi = (beta.array().colwise() * t1.unaryExpr(cwise_fast_exp)).array() *
+    phi = (beta.array().colwise() * t1.unaryExpr(cwise_fast_exp).array()).array() *
         (eta.col(y).array().log().matrix() * tau.transpose()).unaryExpr(cwise_fast_exp).array();
     //phi = phi.array().rowwise() / phi.colwise().sum().array();
     math_utils::normalize_cols(phi);
-- 
2.43.0


From aa68ad1b865033e79439e84417433a7abe4b5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:27 +0000
Subject: [PATCH 21/24] fix: do not overflow exp() in the logistic regression
 objectives

---
 .../optimization/MultinomialLogisticRegression.cpp  | 11 +++++------
 .../SecondOrderLogisticRegressionApproximation.cpp  | 13 +++++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
index 6dc9d2c..18a19a5 100644
--- a/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
+++ b/src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp
@@ -45,11 +45,9 @@ Scalar MultinomialLogisticRegression<Scalar>::value(const MatrixX &eta) const {
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());
-
-        // This will be used in case we have overflow issues
-        //Scalar a = t.maxCoeff();
-        //likelihood -= a + std::log((t.array() - a).exp().sum());
+        // subtract the maximum so that exp() cannot overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log((t.array() - a).exp().sum()));
     }
     
     // Add suitable normalization to the final likelihood
@@ -68,7 +66,8 @@ void MultinomialLogisticRegression<Scalar>::gradient(const MatrixX &eta, Eigen::
     for (int d=0; d<y_.rows(); d++) {
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
-        t = (eta.transpose() * X_.col(d)).array().exp();
+        t = eta.transpose() * X_.col(d);
+        t = (t.array() - t.maxCoeff()).exp().eval();
         grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();
     }
 
diff --git a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
index 0b20155..41abc9b 100644
--- a/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
+++ b/src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp
@@ -47,9 +47,11 @@ Scalar SecondOrderLogisticRegressionApproximation<Scalar>::value(const MatrixX &
     for (int d=0; d<y_.rows(); d++) {
         t = eta.transpose() * X_.col(d);
         likelihood += Cy_[y_[d]] * t[y_[d]];
-        likelihood -= Cy_[y_[d]] * std::log(
-            (t.array().exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
-        );
+        // subtract the maximum so that exp() cannot overflow
+        Scalar a = t.maxCoeff();
+        likelihood -= Cy_[y_[d]] * (a + std::log(
+            ((t.array() - a).exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()
+        ));
     }
     
     // Add suitable normalization to the final likelihood
@@ -73,7 +75,10 @@ void SecondOrderLogisticRegressionApproximation<Scalar>::gradient(const MatrixX
         grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);
 
         // compute everything needed to assemble the gradients
-        eta_Ez = (eta.transpose() * X_.col(d)).array().exp();
+        // (the maximum is subtracted so that exp() cannot overflow, it cancels
+        // out when dividing with the normalizer)
+        eta_Ez = eta.transpose() * X_.col(d);
+        eta_Ez = (eta_Ez.array() - eta_Ez.maxCoeff()).exp().eval();
         eta_Vz = eta.transpose() * X_var_[d];
         eta_Vz_eta = (eta_Vz * eta).diagonal();
         eta_Vz += eta.transpose() * X_var_[d].transpose();
-- 
2.43.0


From 47880f529e76993f8eb48e11c5bda819372f6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:27 +0000
Subject: [PATCH 22/24] fix: reject array headers that are not numpy's,
 oversized shapes and wrong shapes

A header with damaged keys, flags, byte order or end was accepted, a
dimension that does not fit an int ended the shape early and silently, loading
a file ignored the requested shape, and an empty array with a huge second
dimension kept the conversion busy forever.
---
 include/ldaplusplus/NumpyFormat.hpp | 42 ++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 031cffa..413a5c6 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -259,7 +259,7 @@ namespace numpy_format {
                 );
 
                 // copy the data by hand for simplicity
-                for (Eigen::Index i=0; i<cols; i++) {
+                for (Eigen::Index i=0; i<cols && rows>0; i++) {
                     for (Eigen::Index j=0; j<rows; j++) {
                         Eigen::Index idx = (fortran_) ? i*rows + j : j*cols + i;
 
@@ -306,7 +306,7 @@ namespace numpy_format {
                         "The file is not in the numpy format"
                     );
                 }
-                if (MAGIC_AND_VERSION[6] != 1) {
+                if (MAGIC_AND_VERSION[6] != 1 || MAGIC_AND_VERSION[7] != 0) {
                     throw std::runtime_error(
                         "Only version 1 of the numpy format is supported"
                     );
@@ -329,7 +329,7 @@ namespace numpy_format {
                     throw std::runtime_error("The header is truncated");
                 }
                 buffer[header_len] = 0;
-                std::string header(&buffer[0]);
+                std::string header(&buffer[0], header_len);
                 size_t shape_start = header.find_last_of('(');
                 size_t shape_end = header.find_last_of(')');
                 if (
@@ -347,6 +347,30 @@ namespace numpy_format {
 
                 // parse dtype info
                 std::string dtype = header.substr(11, 3);
+                std::string order = header.substr(34, header[34] == 'T' ? 4 : 5);
+                std::string tail = header.substr(shape_end+1);
+                tail.erase(
+                    std::remove_if(
+                        tail.begin(),
+                        tail.end(),
+                        [](char c) { return c == ' ' || c == '\n'; }
+                    ),
+                    tail.end()
+                );
+                if (
+                    header.compare(0, 11, "{'descr': '") != 0 ||
+                    std::string("<>|").find(dtype[0]) == std::string::npos ||
+                    header.compare(14, 20, "', 'fortran_order': ") != 0 ||
+                    (order != "True" && order != "False") ||
+                    header.compare(
+                        34 + order.size(),
+                        shape_start - 33 - order.size(),
+                        ", 'shape': ("
+                    ) != 0 ||
+                    (tail != "}" && tail != ",}")
+                ) {
+                    throw std::runtime_error("The header is malformed");
+                }
                 bool endianness = dtype[0] == '>';
                 if (dtype.substr(1) != dtype_for_scalar<Scalar>()) {
                     throw std::runtime_error(
@@ -366,9 +390,12 @@ namespace numpy_format {
                 );
                 size_t N = 1;
                 size_t limit = PTRDIFF_MAX / sizeof(Scalar);
-                int dimension;
+                int64_t dimension;
                 char comma;
-                while (shape >> dimension) {
+                while (!(shape >> std::ws).eof()) {
+                    if (!(shape >> dimension)) {
+                        throw std::runtime_error("The shape is malformed");
+                    }
                     if (dimension > 0)
                         limit /= dimension;
                     if (dimension < 0 || limit == 0) {
@@ -381,9 +408,6 @@ namespace numpy_format {
                         throw std::runtime_error("The shape is malformed");
                     }
                 }
-                if (!shape.eof()) {
-                    throw std::runtime_error("The shape is malformed");
-                }
 
                 // read the data in chunks, so that we do not allocate space
                 // for more than what is actually there
@@ -469,7 +493,7 @@ namespace numpy_format {
             std::ios::in | std::ios::binary
         );
         
-        return load<Scalar>(in_stream);
+        return load<Scalar, Rows, Cols, Options>(in_stream);
     }
 
 } // namespace numpy_format 
-- 
2.43.0


From c545c7698c38f4973f081bad4309ea89f733ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:36 +0000
Subject: [PATCH 23/24] fix: deliver the events of an epoch also when training
 on another thread than the constructing one

---
 src/ldaplusplus/LDA.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 07f7433..af0be3c 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -133,6 +133,10 @@ void LDA<Scalar>::partial_fit(std::shared_ptr<corpus::Corpus> corpus) {
 
     // inform the world that the epoch is over
     get_event_dispatcher()->template dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);
+
+    // if this is not the thread that created the dispatcher the events of the
+    // m step and the epoch are still waiting
+    process_worker_events();
 }
 
 
-- 
2.43.0


From c765e436d0f48512015a9e388173e3d9fba319b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 24/24] fix: write and read array headers independently of the
 global locale

---
 include/ldaplusplus/NumpyFormat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 413a5c6..7fc8edf 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -162,6 +163,7 @@ namespace numpy_format {
                 // We need to create the header for the data which is a python literal
                 // string
                 std::ostringstream header;
+                header.imbue(std::locale::classic());
                 header << "{'descr': '" << data.dtype() << "',"
                        << " 'fortran_order': " << (data.fortran_contiguous() ? "True" : "False") << ","
                        << " 'shape': (";
@@ -388,6 +390,7 @@ namespace numpy_format {
                 std::istringstream shape(
                     header.substr(shape_start+1, shape_end-shape_start-1)
                 );
+                shape.imbue(std::locale::classic());
                 size_t N = 1;
                 size_t limit = PTRDIFF_MAX / sizeof(Scalar);
                 int64_t dimension;
-- 
2.43.0

