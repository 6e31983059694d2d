// C05: every composition of view operations addresses exactly the elements named by the index-map model.
// Explicit-state search to closure: a state is a typed view (kind, offset, sizes, leading dimension) together with the
// model's list of addresses; from every state every operation with every argument is executed on the real code.
#include "blasref.hpp"
#include <tlapack/base/arrayTraits.hpp>
#include <tlapack/base/workspace.hpp>
#include <deque>
#include <set>
#include <map>
#include <span>

enum { MC_ = 0, MR_ = 1, V_ = 2, V1_ = 3, VB_ = 4, VI_ = 5 };
static const char* kn[] = {"colmajor", "rowmajor", "vector", "unit vector", "backward vector", "strided vector"};

struct St {
    int kind = 0;
    bool cst = false;
    long off = 0, m = 0, n = 0, ld = 0;  // vectors: n = size, ld = inc
    std::vector<long> model;             // expected offset of each element; matrices in (i + j*m) order
    int from = -1;
    std::string op;
};
static std::vector<T> base_;
static T* b0() { return base_.data(); }

template <class I>
struct Explorer {
    template <class E, tl::Layout L>
    using M = tl::LegacyMatrix<E, I, L>;
    template <class E>
    using V = tl::LegacyVector<E, I, I>;
    template <class E>
    using V1 = tl::LegacyVector<E, I>;
    template <class E>
    using VB = tl::LegacyVector<E, I, int, tl::Direction::Backward>;
    template <class E>
    using VI = tl::LegacyVector<E, I, int>;

    std::vector<St> all;
    std::map<std::vector<long>, int> seen;
    size_t trans = 0;
    int cur = -1;
    size_t lo, hi;  // valid offsets of the base array

    std::string path(int i)
    {
        std::string s;
        while (i >= 0) { s = all[i].op + (s.empty() ? "" : " -> ") + s; i = all[i].from; }
        return s;
    }
    [[noreturn]] void bad(const char* key, const std::string& op, const std::string& why)
    {
        mc::fail(key, "%s -> %s: %s", path(cur).c_str(), op.c_str(), why.c_str());
        throw 0;
    }

    // ---- describe a returned view ------------------------------------------------------------------
    template <class E, tl::Layout L>
    static St desc(const M<E, L>& a)
    {
        St s;
        s.kind = L == tl::Layout::ColMajor ? MC_ : MR_;
        s.cst = std::is_const_v<E>;
        s.off = a.ptr - b0();
        s.m = (long)tl::nrows(a);
        s.n = (long)tl::ncols(a);
        s.ld = (long)a.ldim;
        return s;
    }
    template <class E, class J, tl::Direction D>
    static St desc(const tl::LegacyVector<E, I, J, D>& a)
    {
        St s;
        s.kind = D == tl::Direction::Backward ? VB_ : std::is_same_v<J, I> ? V_ : std::is_same_v<J, int> ? VI_ : V1_;
        if (D == tl::Direction::Forward && std::is_same_v<J, I>) s.kind = V_;
        s.cst = std::is_const_v<E>;
        s.off = a.ptr - b0();
        s.m = 1;
        s.n = (long)tl::size(a);
        s.ld = (long)a.inc;
        return s;
    }
    template <class E, tl::Layout L>
    static std::vector<long> addrs(M<E, L>& a)
    {
        std::vector<long> r;
        const M<E, L>& c = a;
        for (I j = 0; j < tl::ncols(a); ++j)
            for (I i = 0; i < tl::nrows(a); ++i) {
                r.push_back(&a(i, j) - b0());
                if (&a(i, j) != &c(i, j)) r.push_back(-1000000);
            }
        return r;
    }
    template <class E, class J, tl::Direction D>
    static std::vector<long> addrs(tl::LegacyVector<E, I, J, D>& a)
    {
        std::vector<long> r;
        const auto& c = a;
        for (I i = 0; i < tl::size(a); ++i) {
            r.push_back(&a[i] - b0());
            if (&a[i] != &c[i]) r.push_back(-1000000);
        }
        return r;
    }
    static std::string show(const std::vector<long>& v)
    {
        std::string s = "[";
        for (long x : v) s += std::to_string(x) + " ";
        return s + "]";
    }
    /// compare a returned view with the model and enter it as a state
    template <class W>
    void enter(W w, long m, long n, std::vector<long> model, const std::string& op, bool wantConst)
    {
        ++trans;
        St s = desc(w);
        mc::E().checks++;
        if (s.m != m || s.n != n) bad("size", op, "is " + std::to_string(s.m) + "x" + std::to_string(s.n) + ", expected " + std::to_string(m) + "x" + std::to_string(n));
        if (wantConst && !s.cst) bad("const", op, "view of a constant array is writable");
        std::vector<long> a = addrs(w);
        if (a != model) bad("alias", op, std::string(kn[s.kind]) + " addresses " + show(a) + " expected " + show(model));
        s.model = std::move(model);
        add(s, op);
    }
    void add(St& s, const std::string& op)
    {
        if (s.model.empty()) {  // nothing can be addressed: position and stride of an empty view do not matter
            s.off = 100;
            s.ld = s.kind == MC_ ? std::max(1L, s.m) : s.kind == MR_ ? std::max(1L, s.n) : 1;
        }
        std::vector<long> k = {s.kind, s.cst, s.off, s.m, s.n, s.ld};
        k.insert(k.end(), s.model.begin(), s.model.end());
        if (!seen.emplace(k, (int)all.size()).second) return;
        s.from = cur;
        s.op = op;
        all.push_back(s);
    }
    // ---- matrix operations -----------------------------------------------------------------------------
    static std::string rg(long a, long b) { return "[" + std::to_string(a) + "," + std::to_string(b) + ")"; }
    static std::pair<I, I> pr(long a, long b) { return std::pair<I, I>((I)a, (I)b); }
    std::vector<long> pick(const St& s, long r0, long r1, long c0, long c1)
    {
        std::vector<long> v;
        for (long j = c0; j < c1; ++j)
            for (long i = r0; i < r1; ++i) v.push_back(s.model[i + j * s.m]);
        return v;
    }
    template <class A_t>
    void matOps(A_t& A, const St& s, bool wc, const char* q)
    {
        std::string p = q;
        for (long a = 0; a <= s.m; ++a)
            for (long b = a; b <= s.m; ++b) {
                enter(tl::rows(A, pr(a, b)), b - a, s.n, pick(s, a, b, 0, s.n), p + "rows" + rg(a, b), wc);
                for (long c = 0; c <= s.n; ++c)
                    for (long d = c; d <= s.n; ++d) enter(tl::slice(A, pr(a, b), pr(c, d)), b - a, d - c, pick(s, a, b, c, d), p + "slice" + rg(a, b) + rg(c, d), wc);
                for (long c = 0; c < s.n; ++c) enter(tl::slice(A, pr(a, b), (I)c), 1, b - a, pick(s, a, b, c, c + 1), p + "slice" + rg(a, b) + "col " + std::to_string(c), wc);
            }
        for (long c = 0; c <= s.n; ++c)
            for (long d = c; d <= s.n; ++d) {
                enter(tl::cols(A, pr(c, d)), s.m, d - c, pick(s, 0, s.m, c, d), p + "cols" + rg(c, d), wc);
                for (long a = 0; a < s.m; ++a) enter(tl::slice(A, (I)a, pr(c, d)), 1, d - c, pick(s, a, a + 1, c, d), p + "slice row " + std::to_string(a) + rg(c, d), wc);
            }
        for (long i = 0; i < s.m; ++i) enter(tl::row(A, (I)i), 1, s.n, pick(s, i, i + 1, 0, s.n), p + "row " + std::to_string(i), wc);
        for (long j = 0; j < s.n; ++j) enter(tl::col(A, (I)j), 1, s.m, pick(s, 0, s.m, j, j + 1), p + "col " + std::to_string(j), wc);
        for (long d = -(s.m - 1); d < s.n || d <= 0; ++d) {
            if (d < 0 && -d >= s.m) continue;
            if (d > 0 && d >= s.n) break;
            std::vector<long> v;
            for (long i = std::max(0L, -d); i < s.m && i + d < s.n; ++i) v.push_back(s.model[i + (i + d) * s.m]);
            long len = v.size();
            enter(tl::diag(A, (int)d), 1, len, v, p + "diag " + std::to_string(d), wc);
            if (d == 0) enter(tl::diag(A), 1, len, v, p + "diag", wc);
        }
        {
            std::vector<long> v;
            for (long j = 0; j < s.m; ++j)
                for (long i = 0; i < s.n; ++i) v.push_back(s.model[j + i * s.m]);
            enter(tl::transpose_view(A), s.n, s.m, v, p + "transpose", wc);
        }
    }
    /// first part must be m x n, both parts are disjoint and together are the whole array
    template <class P>
    void enterReshape(P& pr_, long m, long n, const St& s, const std::string& op)
    {
        ++trans;
        mc::E().checks++;
        St f = desc(pr_.first), g = desc(pr_.second);
        if (f.m != m || f.n != n) bad("size", op, "first part is " + std::to_string(f.m) + "x" + std::to_string(f.n));
        f.model = addrs(pr_.first);
        g.model = addrs(pr_.second);
        std::vector<long> u = f.model, w = s.model;
        u.insert(u.end(), g.model.begin(), g.model.end());
        std::vector<long> us = u;
        std::sort(us.begin(), us.end());
        std::sort(w.begin(), w.end());
        if (us != w) bad("reshape", op, "parts " + show(f.model) + " and " + show(g.model) + " do not partition " + show(s.model));
        if (s.cst && !(f.cst && g.cst)) bad("const", op, "view of a constant array is writable");
        add(f, op + ".first");
        add(g, op + ".second");
    }
    static bool contiguous(const St& s, bool row)
    {
        // addresses consecutive in layout order
        for (size_t k = 0; k + 1 < s.model.size(); ++k) {
            long i0, j0, i1, j1;
            if (row) { i0 = k / s.n; j0 = k % s.n; i1 = (k + 1) / s.n; j1 = (k + 1) % s.n; }
            else { i0 = k % s.m; j0 = k / s.m; i1 = (k + 1) % s.m; j1 = (k + 1) / s.m; }
            if (s.model[i1 + j1 * s.m] != s.model[i0 + j0 * s.m] + 1) return false;
        }
        return true;
    }
    template <class A_t>
    void matReshape(A_t& A, const St& s)
    {
        long sz = s.m * s.n;
        bool cont = contiguous(s, s.kind == MR_);
        for (long m = 0; m <= sz + 1; ++m)
            for (long n = 0; n <= sz + 1; ++n) {
                if (m * n > sz + 3) continue;
                std::string op = "reshape(" + std::to_string(m) + "," + std::to_string(n) + ")";
                try {
                    auto p = tl::reshape(A, (I)m, (I)n);
                    if (m * n > sz) bad("refuse", op, "succeeds although the array is too small");
                    enterReshape(p, m, n, s, op);
                }
                catch (std::domain_error&) {
                    ++trans;
                    if (m * n <= sz && (cont || (m == s.m && n <= s.n) || (n == s.n && m <= s.m))) bad("refuse", op, "refused although it is possible");
                }
            }
        for (long n = 0; n <= sz + 1; ++n) {
            std::string op = "reshape(" + std::to_string(n) + ")";
            try {
                auto p = tl::reshape(A, (I)n);
                if (n > sz) bad("refuse", op, "succeeds although the array is too small");
                enterReshape(p, 1, n, s, op);
            }
            catch (std::domain_error&) {
                ++trans;
                if (n <= sz && (cont || n == 0 || n == s.m || n == s.n)) bad("refuse", op, "refused although it is possible");
            }
        }
    }
    template <class V_t>
    void vecOps(V_t& v, const St& s, bool wc, const char* q)
    {
        for (long a = 0; a <= s.n; ++a)
            for (long b = a; b <= s.n; ++b) enter(tl::slice(v, pr(a, b)), 1, b - a, std::vector<long>(s.model.begin() + a, s.model.begin() + b), std::string(q) + "slice" + rg(a, b), wc);
    }
    template <class V_t>
    void vecReshape(V_t& v, const St& s)
    {
        bool fwd = s.kind != VB_;
        bool cont = s.ld == 1 || s.n <= 1;
        for (long n = 0; n <= s.n + 1; ++n) {
            std::string op = "reshape(" + std::to_string(n) + ")";
            try {
                auto p = tl::reshape(v, (I)n);
                if (n > s.n) bad("refuse", op, "succeeds although the array is too small");
                if (addrs(p.first) != std::vector<long>(s.model.begin(), s.model.begin() + n)) bad("alias", op, "first part is not the leading part");
                enterReshape(p, 1, n, s, op);
            }
            catch (std::domain_error&) {
                ++trans;
                if (n <= s.n) bad("refuse", op, "refused although it is possible");
            }
        }
        for (long m = 0; m <= s.n + 1; ++m)
            for (long n = 0; n <= s.n + 1; ++n) {
                if (m * n > s.n + 3) continue;
                std::string op = "reshape(" + std::to_string(m) + "," + std::to_string(n) + ")";
                try {
                    auto p = tl::reshape(v, (I)m, (I)n);
                    if (m * n > s.n) bad("refuse", op, "succeeds although the array is too small");
                    if (fwd && addrs(p.first) != std::vector<long>(s.model.begin(), s.model.begin() + m * n)) bad("alias", op, "first part is not the leading part in column order");
                    enterReshape(p, m, n, s, op);
                }
                catch (std::domain_error&) {
                    ++trans;
                    if (m * n <= s.n && (cont || m <= 1)) bad("refuse", op, "refused although it is possible");
                }
            }
    }
    template <class E>
    void expand(const St& s)
    {
        E* p = b0() + s.off;
        switch (s.kind) {
            case MC_: {
                M<E, tl::Layout::ColMajor> a((I)s.m, (I)s.n, p, (I)s.ld);
                matOps(a, s, s.cst, "");
                const auto& c = a;
                matOps(c, s, true, "const ");
                matReshape(a, s);
                break;
            }
            case MR_: {
                M<E, tl::Layout::RowMajor> a((I)s.m, (I)s.n, p, (I)s.ld);
                matOps(a, s, s.cst, "");
                const auto& c = a;
                matOps(c, s, true, "const ");
                matReshape(a, s);
                break;
            }
            case V_: { V<E> v((I)s.n, p, (I)s.ld); vec(v, s); break; }
            case V1_: { V1<E> v((I)s.n, p); vec(v, s); break; }
            case VB_: { VB<E> v((I)s.n, p, (int)s.ld); vec(v, s); break; }
            default: { VI<E> v((I)s.n, p, (int)s.ld); vec(v, s); }
        }
    }
    template <class V_t>
    void vec(V_t& v, const St& s)
    {
        vecOps(v, s, s.cst, "");
        const auto& c = v;
        vecOps(c, s, true, "const ");
        vecReshape(v, s);
    }
    void run(St s, const char* name)
    {
        add(s, name);
        for (size_t k = 0; k < all.size(); ++k) {
            cur = (int)k;
            St t = all[k];
            if (t.cst) expand<const T>(t);
            else expand<T>(t);
        }
        mc::addStates(all.size(), trans);
        mc::mix(all.size());
    }
};
template <class I>
static void explore(int kind, long m, long n, long ld)
{
    base_.assign(400, T(0));
    St s;
    s.kind = kind;
    s.off = 100;
    s.m = kind <= MR_ ? m : 1;
    s.n = n;
    s.ld = ld;
    if (kind == MC_) for (long j = 0; j < n; ++j) for (long i = 0; i < m; ++i) s.model.push_back(100 + i + j * ld);
    else if (kind == MR_) for (long j = 0; j < n; ++j) for (long i = 0; i < m; ++i) s.model.push_back(100 + i * ld + j);
    else for (long i = 0; i < n; ++i) s.model.push_back(100 + (kind == VB_ ? n - 1 - i : i) * ld);
    Explorer<I> e;
    e.run(s, kn[kind]);
}
MC_HARNESS(matrices)
{
    int mx = mc::thorough() ? 5 : 4;
    int kind = mc::choose("layout", 2), m = mc::range("m", 0, mx), n = mc::range("n", 0, mx), pad = mc::range("pad", 0, 2), it = mc::choose("index", 3);
    if (!mc::thorough() && m * n > 12) throw mc::Prune{};
    mc::body();
    long ld = (kind == MC_ ? m : n) + pad;
    if (it == 0) explore<size_t>(kind, m, n, ld);
    else if (it == 1) explore<int>(kind, m, n, ld);
    else explore<int64_t>(kind, m, n, ld);
}
MC_HARNESS(vectors)
{
    int kind = V_ + mc::choose("kind", 4), n = mc::range("n", 0, mc::thorough() ? 9 : 7), inc = mc::range("inc", 1, 3), it = mc::choose("index", 3);
    if (kind == V1_ && inc > 1) throw mc::Prune{};
    mc::body();
    if (it == 0) explore<size_t>(kind, 1, n, inc);
    else if (it == 1) explore<int>(kind == VI_ ? V_ : kind, 1, n, inc);
    else explore<int64_t>(kind, 1, n, inc);
}
/// banded storage: element (i,j) of the band sits at row ku+i-j of column j of the packed array
MC_HARNESS(banded)
{
    int m = mc::range("m", 1, 6), n = mc::range("n", 1, 6), kl = mc::range("kl", 0, m - 1), ku = mc::range("ku", 0, n - 1);
    mc::body();
    std::vector<T> buf((size_t)(kl + ku + 1) * n);
    tl::LegacyBandedMatrix<T> A(m, n, kl, ku, buf.data());
    const auto& c = A;
    if ((int)tl::nrows(A) != m || (int)tl::ncols(A) != n || (int)tl::lowerband(A) != kl || (int)tl::upperband(A) != ku || (int)tl::size(A) != m * n) mc::fail("size", "descriptors");
    for (int j = 0; j < n; ++j)
        for (int i = std::max(0, j - ku); i <= std::min(m - 1, j + kl); ++i) {
            mc::E().checks++;
            T* want = buf.data() + (ku + i - j) + (size_t)j * (kl + ku + 1);
            if (&A(i, j) != want || &c(i, j) != want) mc::fail("alias", "A(%d,%d)", i, j);
        }
}
/// std::vector and std::span slices, and newly created arrays
MC_HARNESS(created)
{
    int m = mc::range("m", 0, 6), n = mc::range("n", 0, 6);
    mc::body();
    auto one = [&](auto tag) {
        typedef decltype(tag) MM;
        tl::Create<MM> cr;
        std::vector<T> v;
        auto A = cr(v, m, n);
        if ((int)tl::nrows(A) != m || (int)tl::ncols(A) != n) mc::fail("size", "created matrix");
        if (tl::layout<decltype(A)> != tl::layout<MM>) mc::fail("layout", "created matrix has another layout");
        if (v.size() < (size_t)m * n) mc::fail("create", "too little memory");
        std::set<T*> s;
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) {
                T* p = &A(i, j);
                if (p < v.data() || p >= v.data() + v.size() || !s.insert(p).second) mc::fail("alias", "created matrix element (%d,%d)", i, j);
            }
        tl::Create<tl::real_type<MM>> crr;
        std::vector<R> vr;
        auto B = crr(vr, m, n);
        if ((int)tl::nrows(B) != m || (int)tl::ncols(B) != n) mc::fail("size", "created real matrix");
        static_assert(std::is_same_v<tl::type_t<decltype(B)>, R>);
        tl::CreateStatic<MM, 5, 3> cs;
        T mem[15];
        auto C = cs(mem);
        if (tl::nrows(C) != 5 || tl::ncols(C) != 3 || tl::layout<decltype(C)> != tl::layout<MM>) mc::fail("size", "statically created matrix");
        std::set<T*> q;
        for (int i = 0; i < 5; ++i)
            for (int j = 0; j < 3; ++j)
                if (&C(i, j) < mem || &C(i, j) >= mem + 15 || !q.insert(&C(i, j)).second) mc::fail("alias", "statically created matrix");
    };
    one(tl::LegacyMatrix<T, size_t, tl::Layout::ColMajor>(0, 0, nullptr, 1));
    one(tl::LegacyMatrix<T, size_t, tl::Layout::RowMajor>(0, 0, nullptr, 1));
    one(tl::LegacyMatrix<T, int, tl::Layout::ColMajor>(0, 0, nullptr, 1));
    auto vec = [&](auto tag) {
        typedef decltype(tag) VV;
        tl::Create<VV> cr;
        std::vector<T> v;
        auto x = cr(v, n);
        if ((int)tl::size(x) != n || v.size() < (size_t)n) mc::fail("size", "created vector");
        std::set<T*> q;
        for (int i = 0; i < n; ++i)
            if (&x[i] < v.data() || &x[i] >= v.data() + v.size() || !q.insert(&x[i]).second) mc::fail("alias", "created vector");
        tl::CreateStatic<VV, 4> cs;
        T mem[4];
        auto y = cs(mem);
        if (tl::size(y) != 4) mc::fail("size", "statically created vector");
        for (int i = 0; i < 4; ++i)
            if (&y[i] < mem || &y[i] >= mem + 4) mc::fail("alias", "statically created vector");
    };
    vec(tl::LegacyVector<T>(0, nullptr));
    vec(tl::LegacyVector<T, size_t, size_t>(0, nullptr));
    vec(tl::LegacyVector<T, size_t, int, tl::Direction::Backward>(0, nullptr));
    std::vector<T> w(m + n);
    for (int a = 0; a <= m + n; ++a)
        for (int b = a; b <= m + n; ++b) {
            auto s = tl::slice(w, std::pair{a, b});
            mc::E().checks++;
            if ((int)tl::size(s) != b - a) mc::fail("size", "slice of std::vector");
            for (int i = 0; i < b - a; ++i)
                if (&s[i] != &w[a + i]) mc::fail("alias", "slice of std::vector");
            for (int c = 0; c <= b - a; ++c) {
                auto t = tl::slice(s, std::pair{c, b - a});
                if ((int)tl::size(t) != b - a - c) mc::fail("size", "slice of std::span");
                for (int i = 0; i < b - a - c; ++i)
                    if (&t[i] != &w[a + c + i]) mc::fail("alias", "slice of std::span");
            }
        }
}
MC_MAIN
