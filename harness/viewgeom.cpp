// Conversions of MaRC::ViewingGeometry.
//
// setup: eq pol prograde n m obsLat obsLon range pa sunLat sunLon
//        centre(0 pixel, 1 latlon) c1 c2 haveOA oas oal scale(0 km, 1 arcsec,
//        2 focal) s1 s2 gll haveEmi emi term
// then any number of: S lat lon (degrees) | P sample line | R sample line | T lat lon | M, one answer each.
// T: latlon2pix then pix2latlon of the answer; R: the other way round.
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <marc/GLLGeometricCorrection.h>
#include <cmath>
#include <cstdio>
#include <exception>
#include <memory>

int main()
{
    double eq, pol, ola, olo, range, pa, sla, slo, c1, c2, oas, oal, s1, s2, emi;
    int pro, n, m, centre, haveoa, scale, gll, haveemi, term;
    if (std::scanf("%lf %lf %d %d %d %lf %lf %lf %lf %lf %lf %d %lf %lf %d %lf %lf %d %lf %lf %d %d %lf %d",
                   &eq, &pol, &pro, &n, &m, &ola, &olo, &range, &pa, &sla, &slo, &centre, &c1, &c2, &haveoa, &oas,
                   &oal, &scale, &s1, &s2, &gll, &haveemi, &emi, &term) != 24)
        return 2;
    double const D = 3.14159265358979323846 / 180;
    try {
        MaRC::ViewingGeometry vg(std::make_shared<MaRC::OblateSpheroid>(pro != 0, eq, pol));
        vg.sub_observ(ola, olo);
        vg.position_angle(pa);
        vg.sub_solar(sla, slo);
        vg.range(range);
        if (scale == 0)
            vg.km_per_pixel(s1);
        else if (scale == 1)
            vg.arcsec_per_pixel(s1);
        else {
            vg.focal_length(s1);
            vg.scale(s2);
        }
        if (centre)
            vg.lat_lon_center(c1, c2);
        else
            vg.body_center(c1, c2);
        if (haveoa)
            vg.optical_axis(oas, oal);
        if (haveemi)
            vg.emi_ang_limit(emi);
        vg.use_terminator(term != 0);
        if (gll)
            vg.geometric_correction(std::make_unique<MaRC::GLLGeometricCorrection>(n));
        vg.finalize_setup(n, m);
        std::printf("@ready\n");
        char op;
        while (std::scanf(" %c", &op) == 1) {
            if (op == 'M') {
                auto const mask = vg.body_mask(n, m);
                std::putchar(0x40);
                for (bool b : mask)
                    std::putchar(b ? '1' : '0');
                std::putchar('\n');
                continue;
            }
            double a, b;
            if (std::scanf("%lf %lf", &a, &b) != 2)
                return 2;
            double x = NAN, y = NAN;
            if (op == 'S') {
                bool const ok = vg.latlon2pix(a * D, b * D, x, y);
                std::printf("@%d %.17g %.17g\n", ok, x, y);
            } else if (op == 'P') {
                bool const ok = vg.pix2latlon(a, b, x, y);
                std::printf("@%d %.17g %.17g\n", ok, x / D, y / D);
            } else if (op == 'T') {
                bool const ok = vg.latlon2pix(a * D, b * D, x, y);
                double lat = NAN, lon = NAN;
                bool const ok2 = ok && vg.pix2latlon(x, y, lat, lon);
                std::printf("@%d %.17g %.17g %d %.17g %.17g\n", ok, x, y, ok2, lat / D, lon / D);
            } else {
                bool const ok = vg.pix2latlon(a, b, x, y);
                double s = NAN, l = NAN;
                bool const ok2 = ok && vg.latlon2pix(x, y, s, l);
                std::printf("@%d %.17g %.17g %d %.17g %.17g\n", ok, x / D, y / D, ok2, s, l);
            }
        }
    } catch (std::exception const & e) {
        std::printf("@refused %s\n", e.what());
    }
    return 0;
}
