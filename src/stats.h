#ifndef K52_VERIF_STATS_H
#define K52_VERIF_STATS_H
#include <cmath>
#include <vector>
namespace hv
{
// normal score of a chi-square value (Wilson-Hilferty); > 7 has probability about 1e-12
inline double chi2_z(double chi2, double df)
{
    double t = std::cbrt(chi2 / df), v = 2.0 / (9.0 * df);
    return (t - (1 - v)) / std::sqrt(v);
}
inline double chi2_uniform_z(const std::vector<long>& counts)
{
    double n = 0, c = 0;
    for (long x : counts) n += (double)x;
    double e = n / (double)counts.size();
    for (long x : counts) c += ((double)x - e) * ((double)x - e) / e;
    return chi2_z(c, (double)counts.size() - 1);
}
// z score of k successes in n trials of probability p, with continuity correction
inline double binom_z(double k, double n, double p)
{
    double s = std::sqrt(n * p * (1 - p));
    double d = std::fabs(k - n * p) - 0.5;
    if (d < 0) d = 0;
    return s > 0 ? d / s : (d > 0 ? 1e9 : 0);
}
}
#endif
