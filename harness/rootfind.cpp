// Reads requests "kind p1 p2 p3 y xl xh" and calls MaRC::root_find() on each.
// Writes "ok <x> <evaluations>", "refused" (bracket not suitable) or "failed".
#include <marc/root_find.h>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#include <string>

static double F(std::string const & k, double a, double b, double c, double x)
{
    if (k == "linear") return a * x + b;
    if (k == "cubic") return a * (x - c) * (x - c) * (x - c) + b * (x - c);
    if (k == "exp") return a * std::exp(b * x) + c;
    if (k == "atan") return a * std::atan(b * (x - c));
    if (k == "kink") return x < c ? a * (x - c) : b * (x - c);
    if (k == "iso") {
        double const t = a * std::sin(x);
        return std::log(std::tan(std::atan(1.0) + x / 2)) + a / 2 * std::log((1 - t) / (1 + t));
    }
    if (k == "stereo") {
        double const t = a * std::sin(x);
        return b * std::tan(std::atan(1.0) - x / 2) * std::pow((1 + t) / (1 - t), a / 2);
    }
    return NAN;
}

int main()
{
    char k[16];
    double a, b, c, y, xl, xh;
    while (std::scanf("%15s %lf %lf %lf %lf %lf %lf", k, &a, &b, &c, &y, &xl, &xh) == 7) {
        long n = 0;
        std::string kind(k);
        try {
            double const x = MaRC::root_find(y, xl, xh, [&](double v) { ++n; return F(kind, a, b, c, v); });
            std::printf("ok %.17g %ld\n", x, n);
        } catch (std::invalid_argument const &) {
            std::printf("refused 0 %ld\n", n);
        } catch (std::exception const &) {
            std::printf("failed 0 %ld\n", n);
        }
        std::fflush(stdout);
    }
    return 0;
}
