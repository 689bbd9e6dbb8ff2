// Answers requests on the mathematics of the library (vectors, matrices, rotations, spheroid), one line each.
#include <marc/Geometry.h>
#include <marc/Mathematics.h>
#include <marc/Matrix.h>
#include <marc/Mercator.h>
#include <marc/OblateSpheroid.h>
#include <marc/PolarStereographic.h>
#include <marc/Vector.h>
#include <marc/utility.h>
#include <cstdio>
#include <cstring>
#include <exception>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using std::size_t;
using MaRC::DVector;

static void put(double x) { std::printf(" %.17g", x); }
template <typename V> static void all(V const & v) { for (auto const & x : v) put(static_cast<double>(x)); }
static void bar() { std::printf(" |"); }

template <typename V> static int past(V const & v, size_t n)
{
    int bad = 0;
    for (size_t i = 0; i < n + 2; ++i) {
        bool thrown = false;
        try { if (!(v.at(i) == v[i])) ++bad; } catch (std::exception const &) { thrown = true; }
        if (thrown != (i >= n)) ++bad;
        if (i >= n && !thrown) ++bad;
    }
    return bad;
}

template <size_t N, typename T> static void vec(std::istream & s)
{
    MaRC::Vector<T, N> a, b;
    T k = 0;
    for (auto & x : a) s >> x;
    for (auto & x : b) s >> x;
    s >> k;
    std::printf("@vec");
    put(a.magnitude()); bar();
    all(a + b); bar(); all(a - b); bar(); all(a * k); bar(); all(k * a); bar();
    put(static_cast<double>(MaRC::dot_product(a, b))); bar();
    put(a == b); put(a != b); put(past(a, N));
    bar();
    auto c = a; c += b; all(c); bar();
    c = a; c -= b; all(c); bar();
    c = a; c *= k; all(c); bar();
    if constexpr (std::is_floating_point<T>::value) { c = a; c.to_unit_vector(); all(c); }
    std::printf("\n");
}

template <size_t M, size_t N, size_t R> static void mat(std::istream & s)
{
    MaRC::Matrix<double, M, N> a, b;
    MaRC::Matrix<double, N, R> c;
    MaRC::Vector<double, N> x;
    double k = 0;
    for (auto & e : a) s >> e;
    for (auto & e : b) s >> e;
    for (auto & e : c) s >> e;
    for (auto & e : x) s >> e;
    s >> k;
    int bad = 0;
    for (size_t i = 0; i < M + 2; ++i)
        for (size_t j = 0; j < N + 2; ++j) {
            bool thrown = false;
            try { if (!(a.at(i, j) == a(i, j))) ++bad; } catch (std::exception const &) { thrown = true; }
            bad += thrown != (i >= M || j >= N);
        }
    std::printf("@mat");
    all(a + b); bar(); all(a - b); bar(); all(a * k); bar(); all(k * a); bar();
    all(MaRC::transpose(a)); bar(); all(a * c); bar(); all(a * x); bar();
    put(a == b); put(a != b); put(bad);
    bar();
    auto d = a; d += b; all(d); bar();
    d = a; d -= b; all(d); bar();
    d = a; d *= k; all(d);
    std::printf("\n");
}

static void serve(std::string const & line, std::shared_ptr<MaRC::OblateSpheroid> & body)
{
    std::istringstream s(line);
    std::string op;
    s >> op;
    double a = 0, b = 0, c = 0, d = 0, e = 0, f = 0, g = 0;
    if (op == "body") {
        std::string x, y;
        s >> x >> y;
        try {
            body = std::make_shared<MaRC::OblateSpheroid>(true, std::stod(x), std::stod(y));
            std::printf("@body 1 %.17g %.17g %.17g %.17g\n", body->eq_rad(), body->pol_rad(), body->flattening(), body->first_eccentricity());
        } catch (std::exception const &) { std::printf("@body 0 0 0 0 0\n"); }
    } else if (op == "lat") {
        s >> a;
        std::printf("@lat %.17g %.17g %.17g %.17g %.17g\n", body->centric_radius(a), body->centric_latitude(a), body->graphic_latitude(a),
                    body->M(a), body->N(a));
    } else if (op == "dist") {
        s >> a;
        MaRC::Mercator const mercator(body);
        MaRC::PolarStereographic const north(body, 0, true), south(body, 0, false);
        std::printf("@dist %.17g %.17g %.17g\n", mercator.distortion(a), north.distortion(a), south.distortion(a));
    } else if (op == "light") {
        s >> a >> b >> c >> d >> e >> f >> g;    // observer, sun, point, range
        std::printf("@light %.17g %.17g %.17g\n", body->mu(a, b, e, f, g), body->mu0(c, d, e, f), body->cos_phase(a, b, c, d, e, f, g));
    } else if (op == "meet") {
        DVector v, w;
        for (auto & x : v) s >> x;
        for (auto & x : w) s >> x;
        double lat = 0, lon = 0;
        int const r = body->ellipse_intersection(v, w, lat, lon);
        std::printf("@meet %d %.17g %.17g\n", r, lat, lon);
    } else if (op == "rot") {
        std::string axis;
        DVector v, r;
        s >> axis >> a;
        for (auto & x : v) s >> x;
        MaRC::DMatrix m;
        if (axis == "x") { MaRC::Geometry::RotX(a, v, r); m = MaRC::Geometry::RotXMatrix(a); }
        else if (axis == "y") { MaRC::Geometry::RotY(a, v, r); m = MaRC::Geometry::RotYMatrix(a); }
        else { MaRC::Geometry::RotZ(a, v, r); m = MaRC::Geometry::RotZMatrix(a); }
        std::printf("@rot"); all(r); bar(); all(m); bar(); all(m * v); std::printf("\n");
    } else if (op == "vec") {
        int n = 0; s >> n;
        if (n == 1) vec<1, double>(s); else if (n == 2) vec<2, double>(s); else if (n == 3) vec<3, double>(s);
        else if (n == 4) vec<4, double>(s); else vec<5, double>(s);
    } else if (op == "ivec") {
        int n = 0; s >> n;
        if (n == 1) vec<1, int>(s); else if (n == 2) vec<2, int>(s); else if (n == 3) vec<3, int>(s);
        else if (n == 4) vec<4, int>(s); else vec<5, int>(s);
    } else if (op == "mat") {
        int n = 0; s >> n;
        if (n == 333) mat<3, 3, 3>(s); else if (n == 234) mat<2, 3, 4>(s); else if (n == 111) mat<1, 1, 1>(s);
        else if (n == 412) mat<4, 1, 2>(s); else mat<3, 2, 1>(s);
    } else if (op == "quad") {
        s >> a >> b >> c;
        std::pair<double, double> r(0, 0);
        bool const ok = MaRC::quadratic_roots(a, b, c, r);
        std::printf("@quad %d %.17g %.17g\n", ok, r.first, r.second);
    } else if (op == "sign") {
        s >> a;
        std::printf("@sign %d %d\n", MaRC::signum(a), MaRC::sgn(a));
    } else if (op == "flip") {
        size_t w = 0, h = 0; int n = 0;
        s >> w >> h >> n;
        std::vector<int> p(n), q;
        for (auto & x : p) s >> x;
        q = p;
        int t = 0, u = 0;
        try { MaRC::invert_samples(p, w, h); } catch (std::invalid_argument const &) { t = 1; }
        try { MaRC::invert_lines(q, w, h); } catch (std::invalid_argument const &) { u = 1; }
        std::printf("@flip %d %d |", t, u); all(p); bar(); all(q); std::printf("\n");
    }
}

int main()
{
    std::shared_ptr<MaRC::OblateSpheroid> body;
    std::string line;
    while (std::getline(std::cin, line)) serve(line, body);
}
