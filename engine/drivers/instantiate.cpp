// Parsed only, never compiled into anything: makes clang instantiate the templates whose bodies
// the checks look at (archives, caches, typed accessors).
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include "Serializable.hpp"
#include "Cache.hpp"
#include "ConfParser.hpp"
#include "SQLite.hpp"
#include "StateOld.hpp"
#include "serialization_eigen.hpp"
#include "Basisnames.hpp"
#include "QuantumDefect.hpp"
#include <complex>
#include <sstream>
#include <string>

template class Cache<int, int>;

template <typename T>
void archive_both(T &x) {
    std::stringstream ss;
    { cereal::BinaryOutputArchive ar(ss); ar << x; }
    { cereal::BinaryInputArchive ar(ss); ar >> x; }
}
template <typename T>
void archive_system(T &x) {
    std::stringstream ss;
    { cereal::BinaryOutputArchive ar(ss); ar << x; }
    { cereal::BinaryInputArchive ar(ss); ar >> x; }
}
void drive(SystemOne<double> &a, SystemOne<std::complex<double>> &b, SystemTwo<double> &c,
           SystemTwo<std::complex<double>> &d, StateOne &s1, StateTwo &s2, MatrixElementCache &m) {
    archive_system(a);
    archive_system(b);
    archive_system(c);
    archive_system(d);
    archive_both(s1);
    archive_both(s2);
    archive_both(m);
}
template <typename T>
void archive_json(T &x) {
    std::stringstream ss;
    { cereal::JSONOutputArchive ar(ss); ar << x; }
    { cereal::JSONInputArchive ar(ss); ar >> x; }
}
void drive_more(StateOneOld &s1, StateTwoOld &s2, Eigen::MatrixXd &a, Eigen::MatrixXcd &b, Eigen::VectorXd &c,
                Eigen::SparseMatrix<double> &d, Eigen::SparseMatrix<double, Eigen::RowMajor> &e) {
    archive_both(s1); archive_both(s2);
    archive_both(a); archive_both(b); archive_both(c); archive_both(d); archive_both(e);
    archive_json(a); archive_json(b); archive_json(c); archive_json(d); archive_json(e);
}
void drive_conf(Configuration &c, std::string const &k) {
    double d; int i; std::string s;
    c[k] >> d; c[k] >> i; c[k] >> s;
    c[k] << 1.0; c[k] << 1.0f; c[k] << 1; c[k] << static_cast<size_t>(1); c[k] << s;
}
void drive_sql(sqlite::statement &st) {
    st.get<int>(0); st.get<double>(0); st.get<std::string>(0);
    st.bind(1, 1); st.bind(1, 1.0); st.bind(1, std::string("x"));
    for (auto &&x : st) (void)x;
}
