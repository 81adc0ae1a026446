// Long-double reference implementations for the DSP monitors.
#ifndef K52_VERIF_DSP_REF_H
#define K52_VERIF_DSP_REF_H
#include "harness.h"
#include <algorithm>
#include <complex>
namespace hv
{
typedef std::complex<double> cd;
typedef std::complex<long double> cld;
typedef std::vector<cd> CV;

inline double norm1(const CV& v) { double s = 0; for (const cd& c : v) s += std::abs(c); return s; }
inline bool finite_all(const CV& v) { for (const cd& c : v) if (!std::isfinite(c.real()) || !std::isfinite(c.imag())) return false; return true; }
inline std::string showc(const CV& v, size_t lim = 6)
{
    std::ostringstream o; o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size() && i < lim; i++) o << (i ? " " : "") << v[i];
    if (v.size() > lim) o << " ... (" << v.size() << ")";
    o << "]";
    return o.str();
}
// roots of unity exp(sign 2 pi i k / n)
struct Roots
{
    std::vector<cld> w;
    Roots(size_t n, int sign)
    {
        w.resize(n);
        for (size_t k = 0; k < n; k++)
        {
            long double a = 2.0L * 3.14159265358979323846264338327950288L * (long double)k / (long double)n;
            w[k] = cld(cosl(a), sign * sinl(a));
        }
    }
};
inline cld dft_bin(const CV& x, size_t k, const Roots& r)
{
    cld s = 0; size_t n = x.size(), p = 0;
    for (size_t j = 0; j < n; j++)
    {
        s += cld(x[j].real(), x[j].imag()) * r.w[p];
        p += k; if (p >= n) p -= n;
    }
    return s;
}
inline CV random_seq(Rng& r, size_t n, std::string* kind = nullptr)
{
    CV x(n);
    int k = (int)r.range(0, 8);
    const char* names[] = {"normal", "impulse", "constant", "tone", "real", "imaginary", "sparse", "huge or tiny", "zero/alternating"};
    if (kind) *kind = names[k];
    switch (k)
    {
    case 0: for (cd& c : x) c = cd(r.normal(), r.normal()); break;
    case 1: if (n) x[(size_t)r.range(0, (int64_t)n - 1)] = cd(r.normal(), r.normal()); break;
    case 2: { cd v(r.normal(), r.normal()); for (cd& c : x) c = v; break; }
    case 3: { double f = (double)r.range(0, (int64_t)n); for (size_t j = 0; j < n; j++) x[j] = std::polar(1.0, 6.283185307179586 * std::fmod(f * (double)j, (double)n) / (double)n); break; }
    case 4: for (cd& c : x) c = cd(r.normal(), 0); break;
    case 5: for (cd& c : x) c = cd(0, r.normal()); break;
    case 6: for (cd& c : x) if (r.chance(0.1)) c = cd(r.normal(), -0.0); break;
    case 7: { double s = std::pow(10, r.uni(-140, 140)); for (cd& c : x) c = cd(r.normal() * s, r.normal() * s); break; }
    default: for (size_t j = 0; j < n; j++) x[j] = (j & 1) ? cd(0, 0) : cd(r.range(-3, 3), r.range(-3, 3)); break;
    }
    return x;
}
// A sequence akin to an earlier one: what a shortcut comparing parts of the input would confuse with it
inline CV related_seq(Rng& r, const CV& x)
{
    CV y = x;
    size_t n = x.size();
    if (n == 0) return y;
    size_t i = (size_t)r.range(0, (int64_t)n - 1), j = (size_t)r.range(0, (int64_t)n - 1);
    switch (r.range(0, 12))
    {
    case 0: break;
    case 1: for (cd& c : y) c = std::conj(c); break;
    case 2: for (cd& c : y) c = -c; break;
    case 3: for (cd& c : y) c = cd(c.imag(), c.real()); break;
    case 4: y[i] = cd(r.normal(), r.normal()); break;
    case 5: y[i] += cd(0, r.normal()); break;
    case 6: std::swap(y[i], y[j]); break;
    case 7: std::reverse(y.begin(), y.end()); break;
    case 8: std::rotate(y.begin(), y.begin() + (long)i, y.end()); break;
    case 9: for (cd& c : y) c *= 2; break;
    case 10: y[n - 1] = cd(r.normal(), 0); break;
    case 11: for (cd& c : y) c = cd(0, c.imag()); break;
    default: y[i] = -y[i]; break;
    }
    return y;
}
// new, or akin to one of the earlier sequences of this length
inline CV next_seq(Rng& r, size_t n, std::vector<CV>& earlier, std::string* kind = nullptr)
{
    if (r.chance(0.4))
    {
        std::vector<const CV*> fit;
        for (const CV& c : earlier) if (c.size() == n) fit.push_back(&c);
        if (!fit.empty())
        {
            CV y = related_seq(r, r.chance(0.7) ? *fit.back() : *r.pick(fit));
            if (kind) *kind = "akin";
            earlier.push_back(y);
            return y;
        }
    }
    CV y = random_seq(r, n, kind);
    earlier.push_back(y);
    return y;
}
inline size_t random_length(Rng& r, bool thorough)
{
    double u = r.uni();
    if (u < 0.1) return (size_t)r.range(1, 3);
    if (u < 0.55) return (size_t)r.range(1, 40);
    if (u < 0.65) return (size_t)1 << r.range(0, thorough ? 11 : 9);
    if (u < 0.75) { static const std::vector<size_t> p = {2, 3, 5, 7, 11, 13, 17, 31, 61, 97, 101, 127, 131, 251, 257}; return r.pick(p); }
    if (u < 0.97) return (size_t)r.range(1, 160);
    return (size_t)r.range(160, thorough ? 1500 : 400);
}
inline Hash& hash_seq(Hash& h, const CV& x)
{
    h.add((uint64_t)x.size());
    for (const cd& c : x) h.add(c.real()).add(c.imag());
    return h;
}

// Akima (1970). usable[i]: the slope at knot i is well conditioned (or exactly determined).
struct RefAkima
{
    std::vector<long double> x, y, s;
    std::vector<char> usable;
    long double Y = 0, M = 0;
    // binary digits from the highest to the lowest used by any of the values
    static int bits(const std::vector<double>& v)
    {
        int lo = 99999, hi = -99999;
        for (double d : v)
        {
            if (d == 0) continue;
            int e;
            double m = std::frexp(d, &e);
            hi = std::max(hi, e);
            int used = 0;
            while (m != std::floor(m)) { m *= 2; used++; }
            lo = std::min(lo, e - used);
        }
        return hi < lo ? 0 : hi - lo;
    }
    RefAkima(const std::vector<double>& px, const std::vector<double>& py)
    {
        size_t n = px.size();
        for (size_t i = 0; i < n; i++) { x.push_back(px[i]); y.push_back(py[i]); Y = std::max(Y, fabsl((long double)py[i])); }
        bool exact = true;
        for (size_t i = 0; i < n; i++)
        {
            int e;
            if (i + 1 < n && std::frexp(px[i + 1] - px[i], &e) != 0.5) exact = false;
        }
        if (bits(px) > 32 || bits(py) > 32) exact = false;
        std::vector<long double> m(n + 3);      // m[i + 2] is the slope of [i, i+1]
        for (size_t i = 0; i + 1 < n; i++) { m[i + 2] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]); }
        m[1] = 2 * m[2] - m[3];
        m[0] = 2 * m[1] - m[2];
        m[n + 1] = 2 * m[n] - m[n - 1];
        m[n + 2] = 2 * m[n + 1] - m[n];
        for (auto v : m) M = std::max(M, fabsl(v));
        for (size_t i = 0; i < n; i++)
        {
            long double w1 = fabsl(m[i + 3] - m[i + 2]), w2 = fabsl(m[i + 1] - m[i]), d = w1 + w2;
            if (d == 0)
            {
                // the tie is only certain where the slopes are exact in double, too
                s.push_back((m[i + 1] + m[i + 2]) / 2);
                usable.push_back(exact || fabsl(m[i + 1] - m[i + 2]) <= 1e-13L * M);
            }
            else
            {
                s.push_back((w1 * m[i + 1] + w2 * m[i + 2]) / d);
                // both neighbours equal: any weights give the same slope
                usable.push_back(d > 1e-4L * M || fabsl(m[i + 1] - m[i + 2]) <= 1e-13L * M);
            }
        }
    }
    // -1 if out of range; interval used
    long interval(double t) const
    {
        if (!(t >= (double)x.front() && t <= (double)x.back())) return -1;
        size_t i = (size_t)(std::upper_bound(x.begin(), x.end(), (long double)t) - x.begin());
        if (i == x.size()) i--;
        return (long)i - 1;
    }
    long double value(double t, bool* ok = nullptr, long double* tol = nullptr, long double* deriv = nullptr) const
    {
        size_t i = (size_t)interval(t);
        long double h = x[i + 1] - x[i], u = ((long double)t - x[i]) / h;
        long double h00 = (1 + 2 * u) * (1 - u) * (1 - u), h10 = u * (1 - u) * (1 - u), h01 = u * u * (3 - 2 * u), h11 = u * u * (u - 1);
        if (ok) *ok = usable[i] && usable[i + 1];
        if (tol) *tol = 1e-9L * (Y + M * h) + 1e-300L;
        if (deriv) *deriv = ((6 * u * u - 6 * u) * y[i] + (6 * u - 6 * u * u) * y[i + 1]) / h + (3 * u * u - 4 * u + 1) * s[i] + (3 * u * u - 2 * u) * s[i + 1];
        return h00 * y[i] + h10 * h * s[i] + h01 * y[i + 1] + h11 * h * s[i + 1];
    }
};
}
#endif
