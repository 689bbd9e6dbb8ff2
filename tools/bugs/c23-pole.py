ID = "beyond-the-pole"
PROPERTY = "C23"
NEEDS = "a high sub-observer latitude and a position beyond the pole"
BREAKS = "the position is given the longitude of the opposite meridian"
EDITS = [("lib/marc/OblateSpheroid.cpp", "    lon = std::atan2(x, -y);", "    lon = std::atan(x / -y);")]
DEMO = '''
src = r"""
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <cmath>
#include <cstdio>
int main()
{
    double const D = 3.14159265358979323846 / 180;
    MaRC::ViewingGeometry g(std::make_shared<MaRC::OblateSpheroid>(true, 1000, 900));
    g.sub_observ(60, 40);
    g.position_angle(20);
    g.sub_solar(0, 0);
    g.range(50000);
    g.km_per_pixel(100);
    g.body_center(15, 15);
    g.finalize_setup(30, 30);
    for (double lat = -20; lat < 90; lat += 10)
        for (double lon = 0; lon < 360; lon += 20) {
            double x, z, a, o;
            if (!g.latlon2pix(lat * D, lon * D, x, z) || !g.is_visible(lat * D, lon * D))
                continue;
            if (!g.pix2latlon(x, z, a, o)) {
                if (lat > 20) return 1;
                continue;
            }
            double d = std::remainder(o / D - lon, 360);
            if (std::fabs(a / D - lat) > 1e-4 || std::fabs(d) > 1e-4) {
                std::printf("%g %g -> %g %g\\\\n", lat, lon, a / D, o / D);
                return 1;
            }
        }
    return 0;
}
"""
with Scratch() as s:
    s.put("t.cpp", src)
    repo = os.getcwd()
    lib = os.path.join(repo, "_build/lib/marc/.libs")
    r = subprocess.run("g++ -std=gnu++17 -I%s/lib -I%s/_build/lib t.cpp -L%s -lMaRC -Wl,-rpath,%s -o t && ./t" % (repo, repo, lib, lib),
                       shell=True, cwd=s.dir)
    check(r.returncode == 0, "there and back again is somewhere else")
'''
