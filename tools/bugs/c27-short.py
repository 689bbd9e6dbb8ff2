ID = "line-of-sight-of-a-large-body"
PROPERTY = "C27"
NEEDS = "a line of sight whose direction is short compared with the radius of the body, such as a unit vector and a radius in metres"
BREAKS = "the line of sight is taken to be null and the body is not met"
EDITS = [("lib/marc/OblateSpheroid.cpp", "    if (a <= 0)\n", "    if (a < 1e-15)\n")]
DEMO = '''
src = r"""
#include <marc/OblateSpheroid.h>
#include <cmath>
int main()
{
    for (double r : { 1000., 71492000. }) {
        MaRC::OblateSpheroid body(true, r, .9 * r);
        MaRC::DVector v({ 0, -10 * r, 0 }), d({ 0, 1, 0 });
        double lat = 7, lon = 7;
        if (body.ellipse_intersection(v, d, lat, lon) != 0) return 1;
        if (std::fabs(lat) > 1e-6 || std::fabs(lon) > 1e-6) return 2;
    }
    MaRC::OblateSpheroid body(true, 1, 1);
    MaRC::DVector v({ 0, -10, 0 }), d({ 0, 0, 0 });
    double lat = 7, lon = 7;
    return body.ellipse_intersection(v, d, lat, lon) == 0;
}
"""
with Scratch() as s:
    s.put("t.cpp", src)
    repo = os.getcwd()
    lib = os.path.join(repo, "_build/lib/marc/.libs")
    r = subprocess.run("g++ -std=gnu++17 -I%s/lib t.cpp -L%s -lMaRC -Wl,-rpath,%s -o t && ./t" % (repo, lib, lib),
                       shell=True, cwd=s.dir)
    check(r.returncode == 0, "line of sight does not meet the body")
'''
