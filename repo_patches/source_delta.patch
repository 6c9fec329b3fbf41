From d3aec01fa05a618ffe748262450f5943ffdbdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 01/37] fix: take the mutex in Cache::clear()

---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 8d7caed2826b6fa2671c5c4c1c5d7416d6dcd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 02/37] fix: iterate over exactly the rows of a statement, for
 any number of rows

---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..8939d75 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!p->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,10 +274,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From 3ed90f5896b3f19a12144755082c8fc9e3ecd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 03/37] fix: do not construct a string from a NULL column

---
 pairinteraction/SQLite.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 8939d75..d879cb3 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -244,8 +244,12 @@ public:
     template <typename T,
               typename = typename std::enable_if<std::is_same<T, std::string>::value>::type>
     std::string get(int field) {
-        return std::string(
-            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field)));
+        auto const *text =
+            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field));
+        if (text == nullptr) { // NULL in the database, or out of memory
+            return {};
+        }
+        return std::string(text, sqlite3_column_bytes(m_stmt.get(), field));
     }
 #endif
 
-- 
2.43.0


From 4c68b9e35f8184969edfcf564cb68601a90001f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 04/37] fix: bind s and k in the order the
 cache_reduced_commutes_l query names them

---
 pairinteraction/MatrixElements.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..4d027de 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -784,8 +784,8 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
         stmt.prepare();
         for (auto &cache : cache_reduced_commutes_l[kappa]) {
             auto state = cache.first;
-            stmt.bind(1, kappa);
-            stmt.bind(2, s);
+            stmt.bind(1, s);
+            stmt.bind(2, kappa);
             stmt.bind(3, state.l[0]);
             stmt.bind(4, state.j[0]);
             stmt.bind(5, state.l[1]);
-- 
2.43.0


From 7cb88cffcf6a2fb7aa50e8e2ea39e1ab66a49f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 05/37] fix: keep the spin-resolved reduced elements in tables
 of their own

Both overloads of MatrixElements::precalculate open the same database file but
declared cache_reduced_commutes_s/_l with different columns, so whichever ran
second read values of a different spin or failed with 'no such column'.
---
 pairinteraction/MatrixElements.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 4d027de..979b67a 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -633,14 +633,14 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     }
 
     if (calcElectricMultipole || calcMagneticMomentum) {
-        stmt.exec("create table if not exists cache_reduced_commutes_s ("
+        stmt.exec("create table if not exists cache_reduced_commutes_s_spin ("
                   "s double, k integer, l1 integer, j1 double,"
                   "l2 integer, j2 double, value double, primary key (s, k, l1, j1, l2, j2)) "
                   "without rowid;");
     }
 
     if (calcMagneticMomentum) {
-        stmt.exec("create table if not exists cache_reduced_commutes_l ("
+        stmt.exec("create table if not exists cache_reduced_commutes_l_spin ("
                   "s double, k integer, l1 integer, j1 double,"
                   "l2 integer, j2 double, value double, primary key (s, k, l1, j1, l2, j2)) "
                   "without rowid;");
@@ -758,7 +758,7 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     }
 
     if (calcElectricMultipole || calcMagneticMomentum) {
-        stmt.set("select value from cache_reduced_commutes_s where `s` = ?1 and `k` = ?2 and `l1` "
+        stmt.set("select value from cache_reduced_commutes_s_spin where `s` = ?1 and `k` = ?2 and `l1` "
                  "= ?3 and `j1` = ?4 and `l2` = ?5 and `j2` = ?6;");
 
         stmt.prepare();
@@ -778,7 +778,7 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     }
 
     if (calcMagneticMomentum) {
-        stmt.set("select value from cache_reduced_commutes_l where `s` = ?1 and `k` = ?2 and `l1` "
+        stmt.set("select value from cache_reduced_commutes_l_spin where `s` = ?1 and `k` = ?2 and `l1` "
                  "= ?3 and `j1` = ?4 and `l2` = ?5 and `j2` = ?6;");
 
         stmt.prepare();
@@ -882,7 +882,7 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     }
 
     if (calcElectricMultipole || calcMagneticMomentum) {
-        stmt.set("insert or ignore into cache_reduced_commutes_s (s, k, l1, j1, l2, j2, value) "
+        stmt.set("insert or ignore into cache_reduced_commutes_s_spin (s, k, l1, j1, l2, j2, value) "
                  "values (?1, ?2, ?3, ?4, ?5, ?6, ?7);");
 
         stmt.prepare();
@@ -920,7 +920,7 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     }
 
     if (calcMagneticMomentum) {
-        stmt.set("insert or ignore into cache_reduced_commutes_l (s, k, l1, j1, l2, j2, value) "
+        stmt.set("insert or ignore into cache_reduced_commutes_l_spin (s, k, l1, j1, l2, j2, value) "
                  "values (?1, ?2, ?3, ?4, ?5, ?6, ?7);");
 
         stmt.prepare();
-- 
2.43.0


From 6c99225f1d1e0d26c31e1efa9a97f6d14ce8f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 06/37] fix: write cached matrix elements with full double
 precision

The shared_ptr overload of MatrixElements::precalculate formatted the values
with the default six significant digits, so a cached element differed from the
one just computed.
---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 979b67a..f112356 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -252,6 +252,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10); // cache values without loss
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From a66210b0a8c6bdceb681fc0c551e12ccdb798b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 07/37] fix: serialise the look-up of quantum defects

The name of the database in use was read and written without
synchronisation, and two threads that missed the same element both saved
it, which the cache reports as smashing.
---
 pairinteraction/QuantumDefect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..adfeb9e 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -86,6 +87,11 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
+    static std::mutex setup_mutex;
+
+    // The name of the database and the cache belong together, and an element
+    // that is missing from the cache must be computed and saved only once.
+    std::lock_guard<std::mutex> lock(setup_mutex);
 
     if (used_db_name != db_name) {
         used_db_name = db_name;
-- 
2.43.0


From ef900cec3911a4f60d4a064687838eb954d86d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 08/37] fix: never use the tables of a previously loaded
 quantum defect database

A database file that cannot be opened was taken for an empty one, so the
tables of the file loaded before were used.
---
 pairinteraction/QuantumDefect.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index adfeb9e..1bcd4ba 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -74,9 +75,12 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
+        sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
+        if (!ifs) {
+            throw std::runtime_error("Cannot open the quantum defect database " + database);
+        }
         std::stringstream buffer;
         buffer << ifs.rdbuf();
         stmt.exec(buffer.str());
-- 
2.43.0


From cb80ad09354b0e3b23387fbee2166df4d04a2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 09/37] fix: let the references of a copied QuantumDefect refer
 to the copy

---
 pairinteraction/QuantumDefect.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pairinteraction/QuantumDefect.hpp b/pairinteraction/QuantumDefect.hpp
index 891a46b..e4a03ce 100644
--- a/pairinteraction/QuantumDefect.hpp
+++ b/pairinteraction/QuantumDefect.hpp
@@ -109,6 +109,15 @@ public:
      * j) */
     QuantumDefect(std::string const &species, int n, int l, double j, std::string const &database);
 
+    /** \brief Copy constructor
+     *
+     * The references of the copy refer to the elements of the copy.
+     */
+    QuantumDefect(QuantumDefect const &other)
+        : QuantumDefect(other.species, other.n, other.l, other.j, nullptr) {
+        e = other.e;
+    }
+
     /** \brief Atomic species */
     const std::string species;
 
-- 
2.43.0


From ad31de7e79e2d57ca45a53a4abe3e0e8a64a2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 10/37] fix: keep all digits of numbers stored in a
 Configuration

With the default precision of six digits, calculations whose parameters
differ in a later digit were given the same key in the result cache.
---
 pairinteraction/ConfParser.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..af15e32 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,9 +20,11 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 /** \brief %Configuration storage
  *
@@ -47,7 +49,21 @@ private:
         template <typename T>
         value &operator<<(T const &rhs) {
             std::ostringstream os;
-            os << rhs;
+            if constexpr (std::is_floating_point<T>::value) {
+                // Use the shortest text that gives back the same number
+                for (int p = std::numeric_limits<T>::digits10;
+                     p <= std::numeric_limits<T>::max_digits10; ++p) {
+                    os.str(std::string{});
+                    os.precision(p);
+                    os << rhs;
+                    T parsed{};
+                    if ((std::istringstream{os.str()} >> parsed) && parsed == rhs) {
+                        break;
+                    }
+                }
+            } else {
+                os << rhs;
+            }
             m_value = os.str();
             return *this;
         }
-- 
2.43.0


From e02714da0db81c4bbcb7923b04c231ec6008b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 11/37] fix: save configuration keys that contain a dot

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..51f2095 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // put() would take a dot in the key for a path separator
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From c1a46a9032deb9601df389a05ea7f8b9a670e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 12/37] fix: forget the serialized form when a
 Hamiltonianmatrix is built from triplets

---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..f142c89 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,7 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 6280ec4fa7a84d0983754305842c51ad7a902c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 13/37] fix: do not keep the bytes of a matrix file that could
 not be loaded, and close it

---
 pairinteraction/Hamiltonianmatrix.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index f142c89..338e3b4 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -518,14 +518,15 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
 
             // read
             bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
-            if (size_result != size_file) {
-                throw std::runtime_error("Matrix could not be read from file.");
-            }
+            size_t size_result = fread(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
             // close file
             fclose(pFile);
 
+            if (size_result != size_file) {
+                throw std::runtime_error("Matrix could not be read from file.");
+            }
+
             doDeserialization();
 
             return true;
@@ -533,6 +534,7 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
         return false;
 
     } catch (std::exception &e) {
+        bytes.clear(); // what was read does not belong to this matrix
 #pragma omp critical(textoutput)
         std::cerr << e.what() << std::endl;
         return false;
-- 
2.43.0


From 8e1c55ef054adc4a6e7e2411e0bacaf71b429210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 14/37] fix: do not keep bytes that could not be deserialized

---
 pairinteraction/Hamiltonianmatrix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 338e3b4..41112ce 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -408,7 +408,12 @@ void Hamiltonianmatrix<Scalar>::doSerialization() {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     bytes = bytesin;
-    doDeserialization();
+    try {
+        doDeserialization();
+    } catch (...) {
+        bytes.clear(); // what was passed does not belong to this matrix
+        throw;
+    }
 }
 
 template <typename Scalar>
-- 
2.43.0


From bd0c58696ac9c998b0742e2d0701957cc4cd71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 15/37] fix: refuse stored matrices whose parts do not fit
 together

---
 pairinteraction/Hamiltonianmatrix.cpp | 28 +++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 41112ce..8a8d100 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -26,6 +26,25 @@
 
 #include <stdexcept>
 
+namespace {
+// Refuses stored data that does not describe a sparse matrix of the stored shape
+void checkStoredMatrix(storage_idx_t rows, storage_idx_t cols, size_t num_values,
+                       const std::vector<idx_t> &indices, const std::vector<idx_t> &indptr) {
+    bool valid = rows >= 0 && cols >= 0 && indices.size() == num_values &&
+        indptr.size() == static_cast<size_t>(cols);
+    for (size_t i = 0; valid && i < indices.size(); ++i) {
+        valid = indices[i] < static_cast<size_t>(rows);
+    }
+    for (size_t i = 0; valid && i < indptr.size(); ++i) {
+        valid = indptr[i] <= num_values && indptr[i] >= (i == 0 ? 0 : indptr[i - 1]) &&
+            (i > 0 || indptr[i] == 0);
+    }
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+}
+} // namespace
+
 template <typename Scalar>
 Hamiltonianmatrix<Scalar>::Hamiltonianmatrix() = default;
 
@@ -459,6 +478,15 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
+    if (entries_data_imag.size() !=
+            (utils::is_complex<Scalar>::value ? entries_data_real.size() : 0) ||
+        basis_data_imag.size() != (utils::is_complex<Scalar>::value ? basis_data_real.size() : 0)) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+    checkStoredMatrix(entries_rows, entries_cols, entries_data_real.size(), entries_indices,
+                      entries_indptr);
+    checkStoredMatrix(basis_rows, basis_cols, basis_data_real.size(), basis_indices, basis_indptr);
+
     // build matrix "entries_"
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
-- 
2.43.0


From c9540e644bd39ce11088c45d7f4cb77c93ac20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 16/37] fix: load matrices of which only the last column is
 filled

---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 8a8d100..1e2442e 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -496,7 +496,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -507,7 +507,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 5972d91be8eed9d68b3c7153558b7882b05c3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 17/37] fix: write matrix files completely or not at all, and
 report failures

---
 pairinteraction/Hamiltonianmatrix.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 1e2442e..9881a0d 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -20,10 +20,12 @@
 #include "Hamiltonianmatrix.hpp"
 
 #include "EigenCompat.hpp"
+#include "filesystem.hpp"
 #include <Eigen/Core>
 #include <Eigen/Eigenvalues>
 #include <fmt/format.h>
 
+#include <cstdio>
 #include <stdexcept>
 
 namespace {
@@ -528,15 +530,24 @@ template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     doSerialization();
 
-    // open file
-    FILE *pFile;
-    pFile = fopen(fname.c_str(), "wb");
+    // write to a temporary file so that the name never refers to incompletely written data
+    const std::string fname_tmp = fname + ".tmp";
+    FILE *pFile = fopen(fname_tmp.c_str(), "wb");
+    if (pFile == nullptr) {
+        throw std::runtime_error("Matrix could not be written to file.");
+    }
 
     // write
-    fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+    size_t size_result = fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
 
     // close file
-    fclose(pFile);
+    bool closed = fclose(pFile) == 0;
+
+    if (size_result != sizeof(byte_t) * bytes.size() || !closed) {
+        std::remove(fname_tmp.c_str());
+        throw std::runtime_error("Matrix could not be written to file.");
+    }
+    fs::rename(fname_tmp, fname);
 }
 
 template <typename Scalar>
-- 
2.43.0


From ae67f2a15a8e1681a42b2d12fa37d767dd3bf744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 18/37] fix: never leave a .json file that does not describe
 the .mat file beside it

---
 pairinteraction/HamiltonianOne.cpp | 9 ++++-----
 pairinteraction/HamiltonianTwo.cpp | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..a14b2be 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -587,11 +587,6 @@ void HamiltonianOne<Scalar>::build() {
             }
         }
 
-        // Create .json file if "is_existing" is false
-        if (!is_existing) {
-            conf.save_to_json(path_json.string());
-        }
-
         // === Build and diagonalize total matrix if not existent ===
         Hamiltonianmatrix<Scalar> totalmatrix;
 
@@ -621,7 +616,11 @@ void HamiltonianOne<Scalar>::build() {
 
             // --- Diagonalize matrix and save diagonalized matrix ---
             totalmatrix.diagonalize();
+            // The .json file declares the .mat file to be valid for its settings. It must never
+            // describe another .mat file.
+            fs::remove(path_json);
             totalmatrix.save(path_mat.string());
+            conf.save_to_json(path_json.string());
 
             // Stdout: Hamiltonian diagonalized
 #pragma omp critical(textoutput)
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..2f80628 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -808,11 +808,6 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 }
             }
 
-            // Create .json file if "is_existing" is false
-            if (!is_existing) {
-                conf.save_to_json(path_json.string());
-            }
-
             // === Build and diagonalize total matrix if not existent ===
             Hamiltonianmatrix<Scalar> totalmatrix;
 
@@ -853,7 +848,11 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
                 // --- Diagonalize matrix and save diagonalized matrix ---
                 totalmatrix.diagonalize();
+                // The .json file declares the .mat file to be valid for its settings. It must never
+                // describe another .mat file.
+                fs::remove(path_json);
                 totalmatrix.save(path_mat.string());
+                conf.save_to_json(path_json.string());
 
                 // Stdout: Hamiltonian diagonalized
 #pragma omp critical(textoutput)
-- 
2.43.0


From 5432886c267a17c93ee3d395c8bf5cd2437c52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 19/37] fix: never leave an incompletely written configuration
 file

---
 pairinteraction/ConfParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 51f2095..3f8e585 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -18,6 +18,7 @@
  */
 
 #include "ConfParser.hpp"
+#include "filesystem.hpp"
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 #include <string>
@@ -45,5 +46,8 @@ void Configuration::save_to_json(std::string const &filename) const {
         pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
-    write_json(filename, pt);
+    // the name must never refer to an incompletely written file
+    std::string const filename_tmp = filename + ".tmp";
+    write_json(filename_tmp, pt);
+    fs::rename(filename_tmp, filename);
 }
-- 
2.43.0


From c648c7e14a559d72bf6db3546a77d9681f724a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 20/37] fix: look up and create the uuid of a cached matrix in
 one critical section

---
 pairinteraction/HamiltonianOne.cpp | 116 ++++++++++++++--------------
 pairinteraction/HamiltonianTwo.cpp | 117 +++++++++++++++--------------
 2 files changed, 119 insertions(+), 114 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index a14b2be..de9e70f 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -494,74 +494,76 @@ void HamiltonianOne<Scalar>::build() {
         conf["By"] << By;
         conf["Bz"] << Bz;
 
-        // === Create table if necessary ===
-        std::stringstream query;
-        std::string spacer;
-
-        if (flag_perhapsmissingtable) {
-            query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
-                     "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                     "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-            for (auto p : conf) {
-                query << ", " << p.first << " text";
-            }
-            query << ", UNIQUE (";
-            for (auto p : conf) {
-                query << spacer << p.first;
-                spacer = ", ";
-            }
-            query << "));";
-
-            flag_perhapsmissingtable = false;
-
-#pragma omp critical(database)
-            stmt.exec(query.str());
-        }
-
-        // === Get uuid as filename === // TODO put code in its own method
+        // Looking up the uuid and, if necessary, creating a new one must not be interrupted by
+        // other threads
         std::string uuid;
-        spacer = "";
-        query.str(std::string());
-        query << "SELECT uuid FROM cache_one WHERE ";
-        for (auto p : conf) {
-            query << spacer << p.first << "='" << p.second.str() << "'";
-            spacer = " AND ";
-        }
-        query << ";";
 
 #pragma omp critical(database)
         {
-            sqlite::statement stmt(db, query.str());
-            stmt.prepare();
-            if (stmt.step()) {
-                uuid = stmt.get<std::string>(0);
-            }
-        }
+            // === Create table if necessary ===
+            std::stringstream query;
+            std::string spacer;
+
+            if (flag_perhapsmissingtable) {
+                query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
+                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                for (auto p : conf) {
+                    query << ", " << p.first << " text";
+                }
+                query << ", UNIQUE (";
+                for (auto p : conf) {
+                    query << spacer << p.first;
+                    spacer = ", ";
+                }
+                query << "));";
 
-        if (!uuid.empty()) {
-            query.str(std::string());
-            query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                  << "';";
-#pragma omp critical(database)
-            stmt.exec(query.str()); // TODO check whether this slows down the program
+                flag_perhapsmissingtable = false;
 
-        } else {
-            boost::uuids::uuid u = generator();
-            boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                stmt.exec(query.str());
+            }
 
+            // === Get uuid as filename === // TODO put code in its own method
+            spacer = "";
             query.str(std::string());
-            query << "INSERT INTO cache_one (uuid";
+            query << "SELECT uuid FROM cache_one WHERE ";
             for (auto p : conf) {
-                query << ", " << p.first;
+                query << spacer << p.first << "='" << p.second.str() << "'";
+                spacer = " AND ";
             }
-            query << ") values ( '" << uuid << "'";
-            for (auto p : conf) {
-                query << ", "
-                      << "'" << p.second.str() << "'";
+            query << ";";
+
+            {
+                sqlite::statement stmt(db, query.str());
+                stmt.prepare();
+                if (stmt.step()) {
+                    uuid = stmt.get<std::string>(0);
+                }
+            }
+
+            if (!uuid.empty()) {
+                query.str(std::string());
+                query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
+                      << "';";
+                stmt.exec(query.str()); // TODO check whether this slows down the program
+
+            } else {
+                boost::uuids::uuid u = generator();
+                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                query.str(std::string());
+                query << "INSERT INTO cache_one (uuid";
+                for (auto p : conf) {
+                    query << ", " << p.first;
+                }
+                query << ") values ( '" << uuid << "'";
+                for (auto p : conf) {
+                    query << ", "
+                          << "'" << p.second.str() << "'";
+                }
+                query << ");";
+                stmt.exec(query.str());
             }
-            query << ");";
-#pragma omp critical(database)
-            stmt.exec(query.str());
         }
 
         // === Check existence of files === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 2f80628..08fe40d 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -715,74 +715,77 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             conf["reflection"] << ((sym.reflection == NA) ? "" : std::to_string(sym.reflection));
             conf["rotation"] << ((sym.rotation == NA) ? "" : std::to_string(sym.rotation));
 
-            // === Create table if necessary ===
-            std::stringstream query;
-            std::string spacer;
-
-            if (flag_perhapsmissingtable) {
-                query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
-                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-                for (auto p : conf) {
-                    query << ", " << p.first << " text";
-                }
-                query << ", UNIQUE (";
-                for (auto p : conf) {
-                    query << spacer << p.first;
-                    spacer = ", ";
-                }
-                query << "));";
-
-#pragma omp critical(database)
-                stmt.exec(query.str());
-
-                flag_perhapsmissingtable = false;
-            }
-
-            // === Get uuid as filename ===
+            // Looking up the uuid and, if necessary, creating a new one must not be interrupted by
+            // other threads
             std::string uuid;
-            query.str(std::string());
-            spacer = "";
-            query << "SELECT uuid FROM cache_two WHERE ";
-            for (auto p : conf) {
-                query << spacer << p.first << "='" << p.second.str() << "'";
-                spacer = " AND ";
-            }
-            query << ";";
 
 #pragma omp critical(database)
             {
-                sqlite::statement stmt(db, query.str());
-                stmt.prepare();
-                if (stmt.step()) {
-                    uuid = stmt.get<std::string>(0);
-                }
-            }
+                // === Create table if necessary ===
+                std::stringstream query;
+                std::string spacer;
+
+                if (flag_perhapsmissingtable) {
+                    query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY "
+                             "KEY, "
+                             "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                             "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                    for (auto p : conf) {
+                        query << ", " << p.first << " text";
+                    }
+                    query << ", UNIQUE (";
+                    for (auto p : conf) {
+                        query << spacer << p.first;
+                        spacer = ", ";
+                    }
+                    query << "));";
 
-            if (!uuid.empty()) {
-                query.str(std::string());
-                query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                      << "';";
-#pragma omp critical(database)
-                stmt.exec(query.str()); // TODO check whether this slows down the program
+                    stmt.exec(query.str());
 
-            } else {
-                boost::uuids::uuid u = generator();
-                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                    flag_perhapsmissingtable = false;
+                }
 
+                // === Get uuid as filename ===
                 query.str(std::string());
-                query << "INSERT INTO cache_two (uuid";
+                spacer = "";
+                query << "SELECT uuid FROM cache_two WHERE ";
                 for (auto p : conf) {
-                    query << ", " << p.first;
+                    query << spacer << p.first << "='" << p.second.str() << "'";
+                    spacer = " AND ";
                 }
-                query << ") values ( '" << uuid << "'";
-                for (auto p : conf) {
-                    query << ", "
-                          << "'" << p.second.str() << "'";
+                query << ";";
+
+                {
+                    sqlite::statement stmt(db, query.str());
+                    stmt.prepare();
+                    if (stmt.step()) {
+                        uuid = stmt.get<std::string>(0);
+                    }
+                }
+
+                if (!uuid.empty()) {
+                    query.str(std::string());
+                    query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '"
+                          << uuid << "';";
+                    stmt.exec(query.str()); // TODO check whether this slows down the program
+
+                } else {
+                    boost::uuids::uuid u = generator();
+                    boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                    query.str(std::string());
+                    query << "INSERT INTO cache_two (uuid";
+                    for (auto p : conf) {
+                        query << ", " << p.first;
+                    }
+                    query << ") values ( '" << uuid << "'";
+                    for (auto p : conf) {
+                        query << ", "
+                              << "'" << p.second.str() << "'";
+                    }
+                    query << ");";
+                    stmt.exec(query.str());
                 }
-                query << ");";
-#pragma omp critical(database)
-                stmt.exec(query.str());
             }
 
             // === Check existence of files ===
-- 
2.43.0


From 9d9a830ad1685a9fc181f5460a743845f6bb3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 21/37] fix: do not set bits of a shared std::vector<bool>
 concurrently

---
 pairinteraction/HamiltonianTwo.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 08fe40d..418c2e5 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -357,8 +357,17 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // the bits of a std::vector<bool> must not be set concurrently
+        std::vector<bool> necessary_step(necessary_tmp.size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+
+#pragma omp critical(necessary)
+        for (size_t idx = 0; idx < necessary_step.size(); ++idx) {
+            if (necessary_step[idx]) {
+                necessary_tmp[idx] = true;
+            }
+        }
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From 17c9b5ea2e054ff66b2ace5c8e1e8e08b030175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 22/37] fix: print the error of a failed deserialization in the
 critical section for text output

---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 9881a0d..4c3347d 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -476,6 +476,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         (((basis_flags & complex_not_real) > 0) != utils::is_complex<Scalar>::value)) {
         std::string msg("The data type used in the program does not fit the data type used in the "
                         "serialized objects.");
+#pragma omp critical(textoutput)
         std::cout << fmt::format(">>ERR{:s}", msg.c_str()) << std::endl;
         throw std::runtime_error(msg);
     }
-- 
2.43.0


From ff4d83b098c6f7caea78e7f90166b9f5ed93650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 23/37] fix: read unsigned 64 bit integers of result files as
 such

---
 pairinteraction_gui/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index f831fb7..a3f8d41 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -31,7 +31,7 @@ class BinaryLoader:
             1108: "uint8",
             1116: "uint16",
             1132: "uint32",
-            1164: "int64",
+            1164: "uint64",
             2032: "float32",
             2064: "float64",
         }
-- 
2.43.0


From 691607a2a169f1d684fe4d4a581232114d5eca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 24/37] fix: a surface refused by GreenTensor::addSurface
 leaves the tensors alone

The positions relative to the plate were assigned before they were checked, so that tensors asked
for after the exception contained the contribution of the refused surface - or not, if they had
been calculated before.
---
 pairinteraction/GreenTensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..5fefca0 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -39,14 +39,17 @@ void GreenTensor::addSurface(double d) {
 
     double angle = std::atan(x / z);
 
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
+    double zA_new = d - z * std::sin(angle) / 2.;
+    double zB_new = d + z * std::sin(angle) / 2.;
 
-    if (zA < 0 || zB < 0) {
+    if (zA_new < 0 || zB_new < 0) {
         throw std::runtime_error(
             "zA or zB < 0. One of the atoms is inside the plate. Plate is half-space z < 0.");
     }
 
+    zA = zA_new;
+    zB = zB_new;
+
     dd_tensor_calculated = false;
     dq_tensor_calculated = false;
     qd_tensor_calculated = false;
-- 
2.43.0


From e769185ac981223d63b89e39b322e13bb67a3ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 25/37] fix: y-gradients of the surface contribution in the
 dipole-quadrupole Green tensors

The components of the plate's dipole-dipole tensor that are proportional to y vanish for atoms in
the xz-plane, but their derivatives with respect to y do not. The dipole-quadrupole and
quadrupole-dipole tensors lacked them.
---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 5fefca0..987afcf 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -185,6 +185,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 2, 0) = -2. * x;
     plate_tensor_second_gradient(0, 2, 0) = zp;
     plate_tensor_second_gradient(2, 0, 0) = -zp;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
 
@@ -224,6 +228,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 2) = 2. * x;
     gradient_plate_tensor_second(0, 0, 2) = -zp;
     gradient_plate_tensor_second(0, 2, 0) = zp;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
 
-- 
2.43.0


From 5136729d6c72b73e4a9cc69cfd12a6a5769f953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 26/37] fix: an unrestricted m (negative delta_m) covers all m
 for start states with negative m, too

---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From 9a108cd704396a84cf289f05cece235515289f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 27/37] fix: entries of complex Hamiltonians are not conjugated
 when they are read or set

Eigen's dot() conjugates its left-hand side, so getHamiltonianEntry returned the complex
conjugate of the entry and setHamiltonianEntry started from the conjugate of the old one.
---
 pairinteraction/SystemBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..06b6157 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1247,7 +1247,8 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // dot() conjugates its left-hand side
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1258,7 +1259,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From 65f823e825959352778ca50b319e438c13175245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 28/37] fix: getStatesMultiIndex builds the basis first, as all
 other queries do

---
 pairinteraction/SystemBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 06b6157..8f10812 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -314,6 +314,7 @@ template <class Scalar, class State>
 const typename states_set<State>::type &
 SystemBase<Scalar, State>::getStatesMultiIndex() { // TODO @hmenke typemap for "const typename
                                                    // states_set<T>::type &"
+    this->buildBasis();
     return states;
 }
 
-- 
2.43.0


From 482116edf48ffa82b76d95bf4e714f77973c774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:31 +0000
Subject: [PATCH 29/37] fix: no use of an uninitialized row for basis vectors
 without entries

---
 pairinteraction/SystemBase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 8f10812..b60a720 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -382,6 +382,10 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
             }
         }
 
+        if (maxval < 0) {
+            throw std::runtime_error("There is a basis vector without any contributing state.");
+        }
+
         states_with_maxval.push_back(states[row_with_maxval].state);
     }
 
@@ -422,7 +426,7 @@ SystemBase<Scalar, State>::getConnections(SystemBase<Scalar, State> &system_to,
 
     for (int k = 0; k < overlap_sqrt.outerSize(); ++k) {
         double maxval = -1;
-        size_t row_with_maxval;
+        size_t row_with_maxval = std::numeric_limits<size_t>::max();
 
         for (typename Eigen::SparseMatrix<double>::InnerIterator triple(overlap_sqrt, k); triple;
              ++triple) {
-- 
2.43.0


From 9ad65d2d93be243cec2b6398cf5d5170461f427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:20 +0000
Subject: [PATCH 30/37] fix: archives keep every setting of systems, states and
 matrix element caches

---
 pairinteraction/MatrixElementCache.hpp | 1 +
 pairinteraction/StateOld.hpp           | 2 ++
 pairinteraction/SystemOne.hpp          | 3 ++-
 pairinteraction/SystemTwo.hpp          | 4 +++-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..985d60f 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -214,6 +214,7 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
+        ar &CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
diff --git a/pairinteraction/StateOld.hpp b/pairinteraction/StateOld.hpp
index 27bdc4d..c0a4977 100644
--- a/pairinteraction/StateOld.hpp
+++ b/pairinteraction/StateOld.hpp
@@ -93,6 +93,7 @@ private:
 
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
+        ar &CEREAL_NVP(idx);
         ar &CEREAL_NVP(species) & CEREAL_NVP(element) & CEREAL_NVP(s) & CEREAL_NVP(n) &
             CEREAL_NVP(l) & CEREAL_NVP(j) & CEREAL_NVP(m);
     }
@@ -162,6 +163,7 @@ private:
 
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
+        ar &CEREAL_NVP(idx);
         ar &CEREAL_NVP(species) & CEREAL_NVP(element) & CEREAL_NVP(s) & CEREAL_NVP(n) &
             CEREAL_NVP(l) & CEREAL_NVP(j) & CEREAL_NVP(m);
     }
diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..8ec4b05 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -173,8 +173,9 @@ private:
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
+        ar &CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..0ead428 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -187,11 +187,13 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax) &
+            CEREAL_NVP(GTbool) & CEREAL_NVP(minimal_le_roy_radius);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
             CEREAL_NVP(greentensor_terms_dq) & CEREAL_NVP(greentensor_terms_qd);
+        ar &CEREAL_NVP(one_atom_basisvectors_indices);
         ar &CEREAL_NVP(interaction_angulardipole) & CEREAL_NVP(interaction_multipole) &
             CEREAL_NVP(interaction_greentensor_dd) & CEREAL_NVP(interaction_greentensor_dq) &
             CEREAL_NVP(interaction_greentensor_qd);
-- 
2.43.0


From d3adb65757fd467149df1fe47ff581622d5ff3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 31/37] fix: settings of systems that are refused leave the
 system as it was; basis vectors cannot be selected after the basis was built

---
 pairinteraction/SystemOne.cpp | 14 ++++++++++----
 pairinteraction/SystemTwo.cpp |  9 +++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..ba719c8 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -56,19 +56,21 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
     this->onParameterChange();
-    efield = field;
 
     // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    this->changeToSphericalbasis(field, efield_spherical);
+
+    efield = field;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
     this->onParameterChange();
-    bfield = field;
 
     // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
+    this->changeToSphericalbasis(field, bfield_spherical);
+
+    bfield = field;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
@@ -134,8 +136,10 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto const previous_parity = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = previous_parity;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -148,8 +152,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto const previous_momenta = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = previous_momenta;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..272d61f 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -89,11 +89,11 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
     this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
@@ -155,8 +155,10 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto const previous_parity = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = previous_parity;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +175,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto const previous_momenta = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = previous_momenta;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
@@ -191,6 +195,7 @@ void SystemTwo<Scalar>::setOneAtomBasisvectors(const std::vector<std::array<size
         throw std::runtime_error("The pairs of indices are not unique: " + which);
     }
 
+    this->onSymmetryChange();
     one_atom_basisvectors_indices = indices;
 }
 
-- 
2.43.0


From 5a8bcf9fc413600e8646d6399759b76442ed60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 32/37] fix: systems that differ in ion, diamagnetism order,
 Green tensor or surface settings are not combined

---
 pairinteraction/SystemOne.cpp | 12 ++++++++++++
 pairinteraction/SystemTwo.cpp |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index ba719c8..4ec134a 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -740,9 +740,21 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
                                               // too
     }
     if (diamagnetism != dynamic_cast<SystemOne<Scalar> &>(system).diamagnetism) {
+        throw std::runtime_error(
+            "The value of the variable 'diamagnetism' must be the same for both systems.");
+    }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge) {
+        throw std::runtime_error(
+            "The value of the variable 'charge' must be the same for both systems.");
+    }
+    if (ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The value of the variable 'distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 272d61f..098f65e 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1490,6 +1490,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The Green tensor approach must be enabled for both systems or for none of them.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From c7c9e94dbf3382db88cd1120591b6a870ee06abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:36 +0000
Subject: [PATCH 33/37] fix: report errors of the calculation to the user

The queues that parse the output of the calculation emit the critical signal
on an error line, but only the thread that reads the output has that signal.
The error ended the thread with an AttributeError instead of being shown.
---
 pairinteraction_gui/worker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..0375cad 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -31,6 +31,7 @@ class Worker(QThread):
     def __init__(self, all_queues, parent=None):
         super().__init__(parent)
         self.all_queues = all_queues
+        self.all_queues.criticalsignal = self.criticalsignal
         self.exiting = False
 
     def __del__(self):
-- 
2.43.0


From fe3e00d4d0421baf65c10b5c062e7b0b30416353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:08 +0000
Subject: [PATCH 34/37] fix: name the results of one atom by the reference
 energies they contain

---
 pairinteraction_gui/pipy/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..2a06b7c 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -224,7 +224,7 @@ class Config:
                 from pairinteraction import pireal
 
                 pi = pireal
-            states = [pi.StateOne(self.species(), *qn) for qn in self.qnumbersSingle(part)]
+            states = [pi.StateOne(self.species(part), *qn) for qn in self.qnumbersSingle(part)]
             energies = [s.getEnergy() for s in states]
             setattr(self, f"_energiesSingle{part}", energies)
         return getattr(self, f"_energiesSingle{part}")
@@ -235,7 +235,7 @@ class Config:
             "species": self.species(part),
             "momenta": self.momentaSingle(part),
         }
-        output["_energies"] = getattr(self, f"_energiesSingle{part}", None)
+        output["_energies"] = self.getEnergiesSingle(part)
         for Q in ["Energy", "N", "L", "J", "M"]:
             minQ, maxQ = self.restrictQnSingle(Q, part)
             output.update({f"min{Q}": minQ, f"max{Q}": maxQ})
-- 
2.43.0


From 0dd70121b5453dd7141b0a7aa51b183a259765f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:08 +0000
Subject: [PATCH 35/37] fix: calculate pair potentials without a limit of the
 pair energy

---
 pairinteraction_gui/pipy/atom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..102c208 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -483,6 +483,7 @@ class AtomTwo(Atom):
             minq, maxq = config.restrictQnPair(q)
             if minq is not None and maxq is not None:
                 raise NotImplementedError("Restricting QN for SystemTwo is not implemented yet.")
+        config.getEnergiesPair(self.atom1, self.atom2)  # needed for the results, even if the energy is not restricted
         minEnergy, maxEnergy = config.restrictEnergyPair(atom1=self.atom1, atom2=self.atom2)
         if minEnergy is not None and maxEnergy is not None:
             system.restrictEnergy(minEnergy, maxEnergy)
-- 
2.43.0


From eb32130b33cdcd504b4e425b3b65e21703517e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:08 +0000
Subject: [PATCH 36/37] fix: sweep the fields of both atoms

---
 pairinteraction_gui/pipy/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 102c208..47d62c2 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -465,7 +465,7 @@ class AtomTwo(Atom):
 
     def _createAtom(self, iAtom):
         """Creating the AtomOne objects for atom 1 or 2."""
-        config = self.config.shallowCopy()
+        config = self.config.deepCopy()  # the other atom must not see the update of this one as its own
         config.force_nAtoms = 1
         config.iAtom = iAtom
         atom = AtomOne(config)
@@ -543,6 +543,9 @@ class AtomTwo(Atom):
         update = {
             **{f"atom{i}": atom.updateFromParams(atom_new) for i, atom in enumerate(self.atoms, 1)},
         }
+        if any(update.values()):
+            config.setEfield(self.atom1.config.Efield(), "")
+            config.setBfield(self.atom1.config.Bfield(), "")
         for k in ["angle", "distance", "inversion", "permutation", "reflection"]:
             if k in new:
                 update[k] = new[k] != getattr(config, k)()
-- 
2.43.0


From 31d347844a2152fdd69bf728f37e04a122d16d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:01:23 +0000
Subject: [PATCH 37/37] fix: check the principal quantum number of both atoms

---
 pairinteraction_gui/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/app.py b/pairinteraction_gui/app.py
index dd6c382..bb280bd 100644
--- a/pairinteraction_gui/app.py
+++ b/pairinteraction_gui/app.py
@@ -2744,7 +2744,7 @@ class MainWindow(QtWidgets.QMainWindow):
 
         elif (
             self.ui.radiobutton_system_missingWhittaker.isChecked()
-            and max(self.systemdict["n1"].magnitude, self.systemdict["n1"].magnitude)
+            and max(self.systemdict["n1"].magnitude, self.systemdict["n2"].magnitude)
             + max(self.systemdict["deltaNSingle"].magnitude, self.systemdict["deltaNPair"].magnitude)
             > 97
         ):
-- 
2.43.0

