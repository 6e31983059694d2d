// A real scalar type whose every operation is a scheduling point of a controlled two-thread scheduler.
#pragma once
#include <functional>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <semaphore>
#include <stdexcept>
#include <thread>
#include <vector>

namespace ys {
// ---- scheduler: at most one worker runs; it hands over at the scheduling points listed in `cuts` ------------
struct Sched {
    std::binary_semaphore go[2] = {std::binary_semaphore(0), std::binary_semaphore(0)};
    std::binary_semaphore done{0};
    std::function<void()> job[2];
    bool live[2] = {false, false};
    bool quit = false;
    long step = 0, cutAt[8];
    int ncut = 0, nextCut = 0, switches = 0;
    std::thread th[2];
    static Sched& I()
    {
        static Sched s;
        return s;
    }
    static int& self()
    {
        static thread_local int me = -1;
        return me;
    }
    Sched()
    {
        for (int t = 0; t < 2; ++t) th[t] = std::thread([this, t] { loop(t); });
    }
    ~Sched()
    {
        quit = true;
        for (int t = 0; t < 2; ++t) go[t].release();
        for (int t = 0; t < 2; ++t) th[t].join();
    }
    void loop(int t)
    {
        self() = t;
        for (;;) {
            go[t].acquire();
            if (quit) return;
            job[t]();
            live[t] = false;
            if (live[1 - t]) go[1 - t].release();
            else done.release();
        }
    }
    void point(int t)
    {
        ++step;
        if (nextCut < ncut && step == cutAt[nextCut]) {
            ++nextCut;
            if (live[1 - t]) {
                ++switches;
                go[1 - t].release();
                go[t].acquire();
            }
        }
    }
    /// runs a and b with the given first thread and switch points; returns the number of scheduling points
    long run(std::function<void()> a, std::function<void()> b, int first, const std::vector<long>& cuts)
    {
        job[0] = a;
        job[1] = b;
        live[0] = live[1] = true;
        step = 0;
        switches = 0;
        nextCut = 0;
        ncut = (int)cuts.size();
        for (int i = 0; i < ncut; ++i) cutAt[i] = cuts[i];
        go[first].release();
        done.acquire();
        return step;
    }
    long alone(std::function<void()> a)
    {
        job[0] = a;
        live[0] = true;
        live[1] = false;
        step = ncut = nextCut = 0;
        go[0].release();
        done.acquire();
        return step;
    }
};
inline void pt()
{
    int t = Sched::self();
    if (t >= 0) Sched::I().point(t);
}
struct Y {
    double v;
    Y() : v(0) {}
    Y(const Y& o) : v(o.v) {}
    template <class N, std::enable_if_t<std::is_arithmetic_v<N>, int> = 0>
    Y(N x) : v((double)x) {}
    Y& operator=(const Y& o) { pt(); v = o.v; return *this; }
    template <class N, std::enable_if_t<std::is_arithmetic_v<N>, int> = 0>
    explicit operator N() const { return (N)v; }
    Y& operator+=(const Y& o) { pt(); v += o.v; return *this; }
    Y& operator-=(const Y& o) { pt(); v -= o.v; return *this; }
    Y& operator*=(const Y& o) { pt(); v *= o.v; return *this; }
    Y& operator/=(const Y& o) { pt(); v /= o.v; return *this; }
    Y operator-() const { return Y(-v); }
    Y operator+() const { return *this; }
    friend Y operator+(const Y& a, const Y& b) { pt(); return Y(a.v + b.v); }
    friend Y operator-(const Y& a, const Y& b) { pt(); return Y(a.v - b.v); }
    friend Y operator*(const Y& a, const Y& b) { pt(); return Y(a.v * b.v); }
    friend Y operator/(const Y& a, const Y& b) { pt(); return Y(a.v / b.v); }
    friend bool operator==(const Y& a, const Y& b) { pt(); return a.v == b.v; }
    friend bool operator!=(const Y& a, const Y& b) { pt(); return a.v != b.v; }
    friend bool operator<(const Y& a, const Y& b) { pt(); return a.v < b.v; }
    friend bool operator>(const Y& a, const Y& b) { pt(); return a.v > b.v; }
    friend bool operator<=(const Y& a, const Y& b) { pt(); return a.v <= b.v; }
    friend bool operator>=(const Y& a, const Y& b) { pt(); return a.v >= b.v; }
    friend Y abs(const Y& a) { return Y(std::fabs(a.v)); }
    friend Y sqrt(const Y& a) { return Y(std::sqrt(a.v)); }
    friend Y pow(const Y& a, const Y& b) { return Y(std::pow(a.v, b.v)); }
    friend Y pow(int a, const Y& b) { return Y(std::pow(a, b.v)); }
    friend Y pow(const Y& a, int b) { return Y(std::pow(a.v, b)); }
    friend Y log2(const Y& a) { return Y(std::log2(a.v)); }
    friend Y log(const Y& a) { return Y(std::log(a.v)); }
    friend Y ceil(const Y& a) { return Y(std::ceil(a.v)); }
    friend Y floor(const Y& a) { return Y(std::floor(a.v)); }
    friend Y sin(const Y& a) { return Y(std::sin(a.v)); }
    friend Y cos(const Y& a) { return Y(std::cos(a.v)); }
    friend bool isnan(const Y& a) { return std::isnan(a.v); }
    friend bool isinf(const Y& a) { return std::isinf(a.v); }
    friend bool isfinite(const Y& a) { return std::isfinite(a.v); }
};
}  // namespace ys
namespace std {
template <>
struct numeric_limits<ys::Y> : numeric_limits<double> {
    static ys::Y min() { return numeric_limits<double>::min(); }
    static ys::Y max() { return numeric_limits<double>::max(); }
    static ys::Y lowest() { return numeric_limits<double>::lowest(); }
    static ys::Y epsilon() { return numeric_limits<double>::epsilon(); }
    static ys::Y round_error() { return 0.5; }
    static ys::Y infinity() { return numeric_limits<double>::infinity(); }
    static ys::Y quiet_NaN() { return numeric_limits<double>::quiet_NaN(); }
    static ys::Y denorm_min() { return numeric_limits<double>::denorm_min(); }
};
}  // namespace std
