// C05: every composition of view operations on Eigen arrays addresses exactly the elements named by the index-map model.
// Explicit-state search to closure over (type, element addresses); every operation is executed on the real plugin.
#include <cassert>
#include <Eigen/Core>
#define TLAPACK_PREFERRED_MATRIX_EIGEN
#include <tlapack/plugins/eigen.hpp>
#include <tlapack/plugins/legacyArray.hpp>
#include "blasref.hpp"
#include <set>
#include <typeinfo>

namespace eg = Eigen;
typedef long I;
enum { Dyn = eg::Dynamic };
#ifndef MC_DEPTH
#define MC_DEPTH 2
#endif
constexpr int DEPTH = MC_DEPTH;  // operations applied on top of the first one

static std::set<std::vector<long>>* seen_;
static size_t trans_;
static std::vector<std::string> path_;
static T* b0_;
static size_t cap_;

[[noreturn]] static void bad(const char* key, const std::string& why)
{
    std::string s;
    for (auto& p : path_) s += (s.empty() ? "" : " -> ") + p;
    mc::fail(key, "%s: %s", s.c_str(), why.c_str());
    throw 0;
}
static std::string show(const std::vector<long>& v)
{
    std::string s = "[";
    for (long x : v) s += std::to_string(x) + " ";
    return s + "]";
}
static long idx(const T& v) { return lroundl((long double)std::real(v)); }

template <class V>
static constexpr bool isVec = std::remove_const_t<V>::IsVectorAtCompileTime;

template <class V>
static std::vector<long> addrs(V& v)
{
    std::vector<long> r;
    const auto& c = v;
    typedef std::remove_const_t<V> V0;
    for (I j = 0; j < v.cols(); ++j)
        for (I i = 0; i < v.rows(); ++i) {
            long k = idx(c(i, j));
            if constexpr (isVec<V>)
                if (idx(c[i + j]) != k) k = -5;
            if constexpr (bool(V0::Flags & eg::LvalueBit) && !std::is_const_v<V>) {
                if (&v.coeffRef(i, j) - b0_ != k || &v(i, j) - b0_ != k) k = -1000000;
                if constexpr (isVec<V>)
                    if (&v[i + j] - b0_ != k) k = -1000001;
            }
            if constexpr (bool(V0::Flags & eg::DirectAccessBit)) {
                // strided access as the raw-pointer kernels do it
                long e = (long)((const T*)c.data() - b0_);
                if constexpr (isVec<V>) e += (i + j) * (long)c.innerStride();
                else e += V0::IsRowMajor ? i * (long)c.outerStride() + j * (long)c.innerStride() : j * (long)c.outerStride() + i * (long)c.innerStride();
                if (e != k) k = -2000000;
            }
            r.push_back(k);
        }
    return r;
}
static long lo_, hi_;  // offsets of the elements of the base array

/// whole-array Eigen expressions read and write exactly the named elements
template <class V>
static void whole(V& v, const std::vector<long>& model)
{
    typedef std::remove_const_t<V> V0;
    typename V0::PlainObject c = v;
    for (I k = 0, m = c.rows(); k < (I)model.size(); ++k)
        if (idx(c(k % m, k / m)) != model[k]) bad("whole", "copy of the view differs in element " + std::to_string(k));
    if constexpr (bool(V0::Flags & eg::LvalueBit) && !std::is_const_v<V> && !std::is_const_v<std::remove_reference_t<decltype(v.coeffRef(0, 0))>>) {
        v.setConstant(T(-9));
        std::vector<char> in(hi_ - lo_, 0);
        for (long k : model) in[k - lo_] = 1;
        for (long k = lo_; k < hi_; ++k) {
            if ((idx(b0_[k]) == -9) != (bool)in[k - lo_]) bad("whole", "assigning to the view " + std::string(in[k - lo_] ? "misses" : "overwrites") + " element " + std::to_string(k));
            b0_[k] = T(R(k));
        }
    }
}
template <int K, class V>
static void explore(V& v, I m, I n, const std::vector<long>& model);

/// compare a view with the model and continue from it
template <int K, class W>
static void enter(W&& w, I m, I n, const std::vector<long>& model, const std::string& op)
{
    ++trans_;
    path_.push_back(op);
    typedef std::remove_reference_t<W> V;
    mc::E().checks++;
    if (w.rows() != m || w.cols() != n) {
        // vectors: orientation is the plugin's business, length is not
        if (!(isVec<V> && w.size() == m * n)) bad("size", "is " + std::to_string(w.rows()) + "x" + std::to_string(w.cols()) + ", expected " + std::to_string(m) + "x" + std::to_string(n));
    }
    if (tl::nrows(w) != w.rows() || tl::ncols(w) != w.cols() || tl::size(w) != m * n) bad("size", "size queries");
    std::vector<long> a = addrs(w);
    if (a != model) bad("alias", "addresses " + show(a) + " expected " + show(model));
    if constexpr (bool(std::remove_const_t<V>::Flags & eg::DirectAccessBit)) {
        // the layout query promises how elements are placed
        constexpr tl::Layout L = tl::layout<std::remove_const_t<V>>;
        for (I j = 0; j + 1 < n && !isVec<V>; ++j)
            for (I i = 0; i + 1 < m; ++i) {
                if (L == tl::Layout::ColMajor && a[i + 1 + j * m] != a[i + j * m] + 1) bad("layout", "reported as column-major");
                if (L == tl::Layout::RowMajor && a[i + (j + 1) * m] != a[i + j * m] + 1) bad("layout", "reported as row-major");
            }
        if constexpr (isVec<V>)
            if ((L == tl::Layout::ColMajor || L == tl::Layout::RowMajor) && false) bad("layout", "");
    }
    if (!model.empty()) whole(w, model);
    if constexpr (K > 0) explore<K - 1>(w, w.rows(), w.cols(), model);
    path_.pop_back();
}
static std::string rg(long a, long b) { return "[" + std::to_string(a) + "," + std::to_string(b) + ")"; }
static std::pair<I, I> pr(long a, long b) { return {a, b}; }

template <int K, class V>
static void matOps(V& A, I m, I n, const std::vector<long>& model)
{
    auto pick = [&](I r0, I r1, I c0, I c1) {
        std::vector<long> v;
        for (I j = c0; j < c1; ++j)
            for (I i = r0; i < r1; ++i) v.push_back(model[i + j * m]);
        return v;
    };
    for (I a = 0; a <= m; ++a)
        for (I b = a; b <= m; ++b) {
            enter<K>(tl::rows(A, pr(a, b)), b - a, n, pick(a, b, 0, n), "rows" + rg(a, b));
            for (I c = 0; c <= n; ++c)
                for (I d = c; d <= n; ++d) enter<K>(tl::slice(A, pr(a, b), pr(c, d)), b - a, d - c, pick(a, b, c, d), "slice" + rg(a, b) + rg(c, d));
            for (I c = 0; c < n; ++c) enter<K>(tl::slice(A, pr(a, b), c), b - a, 1, pick(a, b, c, c + 1), "slice" + rg(a, b) + "col " + std::to_string(c));
        }
    for (I c = 0; c <= n; ++c)
        for (I d = c; d <= n; ++d) {
            enter<K>(tl::cols(A, pr(c, d)), m, d - c, pick(0, m, c, d), "cols" + rg(c, d));
            for (I a = 0; a < m; ++a) enter<K>(tl::slice(A, a, pr(c, d)), 1, d - c, pick(a, a + 1, c, d), "slice row " + std::to_string(a) + rg(c, d));
        }
    for (I i = 0; i < m; ++i) enter<K>(tl::row(A, i), 1, n, pick(i, i + 1, 0, n), "row " + std::to_string(i));
    for (I j = 0; j < n; ++j) enter<K>(tl::col(A, j), m, 1, pick(0, m, j, j + 1), "col " + std::to_string(j));
    for (I d = -(m - 1); d < n || d <= 0; ++d) {
        if (d < 0 && -d >= m) continue;
        if (d > 0 && d >= n) break;
        std::vector<long> v;
        for (I i = std::max<I>(0, -d); i < m && i + d < n; ++i) v.push_back(model[i + (i + d) * m]);
        enter<K>(tl::diag(A, (int)d), (I)v.size(), 1, v, "diag " + std::to_string(d));
        if (d == 0) enter<K>(tl::diag(A), (I)v.size(), 1, v, "diag");
    }
    std::vector<long> t;
    for (I j = 0; j < m; ++j)
        for (I i = 0; i < n; ++i) t.push_back(model[j + i * m]);
    enter<K>(tl::transpose_view(A), n, m, t, "transpose");
}
template <int K, class V>
static void vecOps(V& v, I n, const std::vector<long>& model)
{
    for (I a = 0; a <= n; ++a)
        for (I b = a; b <= n; ++b) {
            std::vector<long> s(model.begin() + a, model.begin() + b);
            auto w = tl::slice(v, pr(a, b));
            enter<K>(w, w.rows(), w.cols(), s, "slice" + rg(a, b));
        }
}
template <int K, class P>
static void enterReshape(P&& p, I m, I n, const std::vector<long>& model, const std::string& op, const std::vector<long>* lead)
{
    std::vector<long> f = addrs(p.first), g = addrs(p.second), u = f, w = model;
    path_.push_back(op);
    if (p.first.size() != m * n || (!isVec<decltype(p.first)> && (p.first.rows() != m || p.first.cols() != n))) bad("size", "first part is " + std::to_string(p.first.rows()) + "x" + std::to_string(p.first.cols()));
    u.insert(u.end(), g.begin(), g.end());
    std::sort(u.begin(), u.end());
    std::sort(w.begin(), w.end());
    if (u != w) bad("reshape", "parts " + show(f) + " and " + show(g) + " do not partition " + show(model));
    if (lead && f != *lead) bad("alias", "first part " + show(f) + " is not the leading part " + show(*lead));
    path_.pop_back();
    enter<K>(p.first, p.first.rows(), p.first.cols(), f, op + ".first");
    enter<K>(p.second, p.second.rows(), p.second.cols(), g, op + ".second");
}
template <int K, class V>
static void reshapeOps(V& A, I m0, I n0, const std::vector<long>& model)
{
    constexpr bool vec = isVec<V>, row = std::remove_const_t<V>::IsRowMajor;
    I sz = m0 * n0;
    bool cont = true;
    // addresses consecutive in layout order
    for (I k = 0; k + 1 < sz; ++k) {
        auto at = [&](I q) { return vec ? model[q] : row ? model[q / n0 + (q % n0) * m0] : model[q]; };
        if (at(k + 1) != at(k) + 1) cont = false;
    }
    for (I m = 0; m <= sz + 1; ++m)
        for (I n = 0; n <= sz + 1; ++n) {
            if (m * n > sz + 3) continue;
            std::string op = "reshape(" + std::to_string(m) + "," + std::to_string(n) + ")";
            bool can = m * n <= sz && (vec ? cont || (row ? n <= 1 : m <= 1) : cont || (m == m0 && n <= n0) || (n == n0 && m <= m0));
            bool ok = true;
            try { tl::reshape(A, m, n); }
            catch (std::domain_error&) { ok = false; }
            ++trans_;
            if (ok && m * n > sz) path_.push_back(op), bad("refuse", "succeeds although the array is too small");
            if (!ok && can) path_.push_back(op), bad("refuse", "refused although it is possible");
            if (!ok) continue;
            auto p = tl::reshape(A, m, n);
            std::vector<long> lead;
            if (vec) {
                if (row) for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) lead.push_back(model[i * n + j]);
                else lead.assign(model.begin(), model.begin() + m * n);
            }
            enterReshape<K>(p, m, n, model, op, vec ? &lead : nullptr);
        }
    for (I n = 0; n <= sz + 1; ++n) {
        std::string op = "reshape(" + std::to_string(n) + ")";
        bool can = n <= sz && (vec || cont || n == 0 || n == m0 || n == n0), ok = true;
        try { tl::reshape(A, n); }
        catch (std::domain_error&) { ok = false; }
        ++trans_;
        if (ok && n > sz) path_.push_back(op), bad("refuse", "succeeds although the array is too small");
        if (!ok && can) path_.push_back(op), bad("refuse", "refused although it is possible");
        if (!ok) continue;
        auto p = tl::reshape(A, n);
        std::vector<long> lead(model.begin(), model.begin() + n);
        enterReshape<K>(p, n, 1, model, op, vec ? &lead : nullptr);
    }
}
template <int K, class V>
static void explore(V& v, I m, I n, const std::vector<long>& model)
{
    typedef std::remove_const_t<V> V0;
    std::vector<long> key = {(long)typeid(V0).hash_code(), std::is_const_v<V>, K, m, n};
    if (!model.empty()) {
        key.insert(key.end(), model.begin(), model.end());
        if constexpr (bool(V0::Flags & eg::DirectAccessBit)) key.push_back((m > 1 && n > 1) || isVec<V> ? 0 : v.outerStride());
    }
    if (!seen_->insert(key).second) return;
    if (seen_->size() > cap_) throw std::runtime_error("state space does not close");
    if constexpr (isVec<V>) vecOps<K>(v, m * n, model);
    else matOps<K>(v, m, n, model);
    reshapeOps<K>(v, m, n, model);
    if constexpr (!std::is_const_v<V>) {
        const V& c = v;
        if (addrs(c) != model) bad("alias", "const access");
        path_.push_back("const");
        explore<K>(c, m, n, model);
        path_.pop_back();
    }
}
template <class V>
static void start(V& v, const char* name, const std::vector<long>& model, long len)
{
    std::set<std::vector<long>> s;
    seen_ = &s;
    trans_ = 0;
    lo_ = 0, hi_ = len;
    cap_ = 4000000;
    path_ = {std::string(name) + " " + std::to_string(v.rows()) + "x" + std::to_string(v.cols())};
    if (addrs(v) != model) bad("alias", "base array");
    explore<DEPTH>(v, v.rows(), v.cols(), model);
    mc::addStates(s.size(), trans_);
    mc::mix(s.size());
}
static std::vector<long> grid(I m, I n, I rs, I cs, long off)
{
    std::vector<long> r;
    for (I j = 0; j < n; ++j)
        for (I i = 0; i < m; ++i) r.push_back(off + i * rs + j * cs);
    return r;
}
constexpr bool RowM = LAY == tl::Layout::RowMajor;
constexpr int OPT = RowM ? eg::RowMajor : eg::ColMajor;
typedef eg::Matrix<T, Dyn, Dyn, OPT> MD;

template <class A>
static void fill(A* p, size_t n, long from)
{
    for (size_t k = 0; k < n; ++k) p[k] = A(R(from + (long)k));
}
#if MC_G == 0
MC_HARNESS(eigen_owned)
{
    int mx = 4, m = mc::range("m", 0, mx), n = mc::range("n", 0, mx);
    mc::body();
    MD A(m, n);
    b0_ = A.data();
    fill(b0_, (size_t)m * n, 0);
    start(A, "Matrix", grid(m, n, RowM ? n : 1, RowM ? 1 : m, 0), (long)m * n);
}
#endif
#if MC_G == 1
MC_HARNESS(eigen_map)
{
    int mx = 4, m = mc::range("m", 0, mx), n = mc::range("n", 0, mx), pad = mc::range("pad", 0, 2);
    mc::body();
    std::vector<T> buf(200);
    fill(buf.data(), 200, 0);
    b0_ = buf.data();
    I ld = (RowM ? n : m) + pad;
    eg::Map<MD, eg::Unaligned, eg::OuterStride<>> A(b0_ + 50, m, n, eg::OuterStride<>(ld));
    start(A, "Map", grid(m, n, RowM ? ld : 1, RowM ? 1 : ld, 50), 200);
}
#endif
#if MC_G == 2
MC_HARNESS(eigen_fixed)
{
    mc::body();
    eg::Matrix<T, 3, 4, OPT> A;
    b0_ = A.data();
    fill(b0_, 12, 0);
    start(A, "Matrix<3,4>", grid(3, 4, RowM ? 4 : 1, RowM ? 1 : 3, 0), 12);
}
#endif
#if MC_G == 3
MC_HARNESS(eigen_vectors)
{
    int k = mc::choose("kind", 4), n = mc::range("n", 0, mc::thorough() ? 9 : 7), inc = mc::range("inc", 1, 3);
    if (k < 2 && inc > 1) throw mc::Prune{};
    mc::body();
    std::vector<T> buf(200);
    fill(buf.data(), 200, 0);
    typedef eg::Matrix<T, Dyn, 1> CV;
    typedef eg::Matrix<T, 1, Dyn> RV;
    if (k == 0) { CV x(n); b0_ = x.data(); fill(b0_, n, 0); start(x, "column vector", grid(n, 1, 1, 1, 0), n); }
    else if (k == 1) { RV x(n); b0_ = x.data(); fill(b0_, n, 0); start(x, "row vector", grid(1, n, 1, 1, 0), n); }
    else if (k == 2) { b0_ = buf.data(); eg::Map<CV, eg::Unaligned, eg::InnerStride<>> x(b0_ + 50, n, eg::InnerStride<>(inc)); start(x, "column map", grid(n, 1, inc, inc, 50), 200); }
    else { b0_ = buf.data(); eg::Map<RV, eg::Unaligned, eg::InnerStride<>> x(b0_ + 50, n, eg::InnerStride<>(inc)); start(x, "row map", grid(1, n, inc, inc, 50), 200); }
}
#endif
/// newly created arrays have the requested size, layout and scalar and own their memory; deduced types follow the layouts
#if MC_G == 0
MC_HARNESS(eigen_created)
{
    int m = mc::range("m", 0, 6), n = mc::range("n", 0, 6);
    mc::body();
    auto one = [&](auto tag, const char* nm) {
        typedef decltype(tag) MM;
        tl::Create<MM> cr;
        std::vector<T> v, v2;
        auto A = cr(v, m, n);
        auto A2 = cr(v2, m, n);
        if (tl::nrows(A) != m || tl::ncols(A) != n) mc::fail("size", "created %s", nm);
        static_assert(std::is_same_v<tl::type_t<decltype(A)>, T>);
        if (tl::layout<decltype(A)> != tl::layout<MM>) mc::fail("layout", "created %s has another layout", nm);
        std::set<T*> s;
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j)
                if (!s.insert(&A(i, j)).second || !s.insert(&A2(i, j)).second) mc::fail("alias", "created %s element (%d,%d)", nm, i, j);
        tl::Create<tl::real_type<MM>> crr;
        std::vector<R> vr;
        auto B = crr(vr, m, n);
        if (tl::nrows(B) != m || tl::ncols(B) != n) mc::fail("size", "created real %s", nm);
        static_assert(std::is_same_v<tl::type_t<decltype(B)>, R>);
        typedef tl::complex_type<MM> MC;
        static_assert(std::is_same_v<tl::type_t<MC>, std::complex<R>>);
        if (tl::layout<MC> != tl::layout<MM> || tl::layout<decltype(B)> != tl::layout<MM>) mc::fail("layout", "real/complex companion of %s", nm);
        tl::CreateStatic<MM, 5, 3> cs;
        T mem[15];
        auto C = cs(mem);
        if (tl::nrows(C) != 5 || tl::ncols(C) != 3 || tl::layout<decltype(C)> != tl::layout<MM>) mc::fail("size", "statically created %s", nm);
        std::set<T*> q;
        for (int i = 0; i < 5; ++i)
            for (int j = 0; j < 3; ++j)
                if (!q.insert(&C(i, j)).second) mc::fail("alias", "statically created %s", nm);
    };
    one(MD(), "matrix");
    one(eg::Matrix<T, Dyn, Dyn, RowM ? eg::ColMajor : eg::RowMajor>(), "other matrix");
    MD base(2, 2);
    auto blk = base.block(0, 0, 1, 1);
    typedef decltype(blk) BL;
    {
        tl::Create<BL> cr;
        std::vector<T> v;
        auto A = cr(v, m, n);
        if (tl::nrows(A) != m || tl::ncols(A) != n || tl::layout<decltype(A)> != tl::layout<MD>) mc::fail("size", "matrix created from a block");
    }
    auto vec = [&](auto tag, const char* nm) {
        typedef decltype(tag) VV;
        tl::Create<VV> cr;
        std::vector<T> v, v2;
        auto x = cr(v, n);
        if (tl::size(x) != n) mc::fail("size", "created %s", nm);
        std::set<T*> q;
        for (int i = 0; i < n; ++i)
            if (!q.insert(&x[i]).second) mc::fail("alias", "created %s", nm);
        tl::CreateStatic<VV, 4> cs;
        T mem[4];
        auto y = cs(mem);
        if (tl::size(y) != 4) mc::fail("size", "statically created %s", nm);
        for (int i = 0; i < 4; ++i)
            if (!q.insert(&y[i]).second) mc::fail("alias", "statically created %s", nm);
    };
    vec(eg::Matrix<T, Dyn, 1>(), "column vector");
    // deduced types
    typedef eg::Matrix<T, Dyn, Dyn, eg::ColMajor> CM;
    typedef eg::Matrix<T, Dyn, Dyn, eg::RowMajor> RM_;
    typedef eg::Matrix<R, Dyn, Dyn, eg::RowMajor> RR;
    static_assert(tl::layout<CM> == tl::Layout::ColMajor && tl::layout<RM_> == tl::Layout::RowMajor);
    static_assert(tl::layout<tl::matrix_type<CM, CM>> == tl::Layout::ColMajor && tl::layout<tl::matrix_type<RM_, RM_>> == tl::Layout::RowMajor);
    static_assert(std::is_same_v<tl::type_t<tl::matrix_type<RR, RM_>>, T> && std::is_same_v<tl::type_t<tl::matrix_type<RM_, RR>>, T>);
    static_assert(std::is_same_v<tl::type_t<tl::vector_type<RR, RM_>>, T>);
    {
        tl::Create<tl::matrix_type<CM, RM_>> cr;
        std::vector<T> v;
        auto A = cr(v, m, n);
        if (tl::nrows(A) != m || tl::ncols(A) != n) mc::fail("size", "matrix of the deduced type");
        tl::Create<tl::vector_type<CM, RM_>> cv;
        auto x = cv(v, n);
        if (tl::size(x) != n) mc::fail("size", "vector of the deduced type");
    }
}
#endif
/// raw descriptors handed to optimized kernels name the same elements
#if MC_G == 3
MC_HARNESS(eigen_legacy_cast)
{
    int mx = 4, m = mc::range("m", 1, mx), n = mc::range("n", 1, mx), pad = mc::range("pad", 0, 2), r0 = mc::range("r0", 0, m - 1), c0 = mc::range("c0", 0, n - 1);
    mc::body();
    std::vector<T> buf(200);
    fill(buf.data(), 200, 0);
    b0_ = buf.data();
    I ld = (RowM ? n : m) + pad;
    auto chk = [&](auto& A, const char* nm) {
        auto L = tl::legacy_matrix(A);
        if ((I)L.m != A.rows() || (I)L.n != A.cols()) mc::fail("cast-size", "%s is %dx%d", nm, (int)L.m, (int)L.n);
        for (I i = 0; i < A.rows(); ++i)
            for (I j = 0; j < A.cols(); ++j) {
                T* p = L.ptr + (L.layout == tl::Layout::ColMajor ? i + j * (I)L.ldim : i * (I)L.ldim + j);
                mc::E().checks++;
                if (p != &A(i, j)) mc::fail("cast-alias", "legacy matrix of %s (%ld,%ld)", nm, i, j);
            }
    };
    auto vchk = [&](auto& x, const char* nm) {
        auto L = tl::legacy_vector(x);
        auto M = tl::legacy_matrix(x);
        if ((I)L.n != x.size() || (I)M.m * (I)M.n != x.size()) mc::fail("cast-size", "vector %s", nm);
        for (I i = 0; i < x.size(); ++i) {
            mc::E().checks++;
            if (L.ptr + i * (I)L.inc != &x[i]) mc::fail("cast-alias", "legacy vector of %s [%ld]", nm, i);
            if (M.ptr + i * (I)(M.n == 1 ? 1 : M.layout == tl::Layout::ColMajor ? M.ldim : 1) != &x[i]) mc::fail("cast-alias", "legacy matrix of vector %s [%ld]", nm, i);
        }
    };
    MD O(m, n);
    chk(O, "Matrix");
    eg::Map<MD, eg::Unaligned, eg::OuterStride<>> A(b0_ + 50, m, n, eg::OuterStride<>(ld));
    chk(A, "Map");
    auto B = tl::slice(A, pr(r0, m), pr(c0, n));
    chk(B, "Block");
    auto C = tl::slice(O, pr(r0, m), pr(c0, n));
    chk(C, "Block of Matrix");
    eg::Matrix<T, Dyn, 1> x(n);
    eg::Matrix<T, 1, Dyn> y(n);
    vchk(x, "column vector");
    vchk(y, "row vector");
    if (RowM) { auto r = tl::row(O, r0); vchk(r, "row"); auto q = tl::row(C, 0); vchk(q, "row of a block"); }
    else { auto c = tl::col(O, c0); vchk(c, "col"); auto q = tl::col(C, 0); vchk(q, "col of a block"); }
    auto xs = tl::slice(x, pr(c0, n));
    vchk(xs, "slice of a vector");
}
#endif
MC_MAIN
