ID = "root-swapped-end"
PROPERTY = "C20"
NEEDS = "a decreasing function and a target value slightly above the value at the upper end of the bracket"
BREAKS = "a bracket that does not straddle the target is answered with an end point"
EDITS = [("lib/marc/root_find.cpp",
          "    if ((yl > y && yh > y) || (yl < y && yh < y))",
          "    if ((yl > y && yh > y && yh - y > 1e-3 * std::abs(yl - yh))\n        || (yl < y && yh < y))")]
DEMO = '''
src = r"""
#include <marc/root_find.h>
#include <cmath>
#include <cstdio>
int main()
{
    auto f = [](double x) { return 5 - x; };
    try {
        double x = MaRC::root_find(1.9999, 0, 3, f);   // values on [0, 3] are 2 to 5
        std::printf("answered %g\\\\n", x);
        return 1;
    } catch (std::exception const &) {}
    try {
        double x = MaRC::root_find(3, 0, 3, f);
        return std::fabs(x - 2) < 1e-9 ? 0 : 1;
    } catch (std::exception const &) { return 1; }
}
"""
with Scratch() as s:
    s.put("t.cpp", src)
    repo = os.getcwd()
    lib = os.path.join(repo, "_build/lib/marc/.libs")
    r = subprocess.run("g++ -std=gnu++17 -I%s/lib t.cpp -L%s -lMaRC -Wl,-rpath,%s -o t && ./t" % (repo, lib, lib),
                       shell=True, cwd=s.dir)
    check(r.returncode == 0, "root finder answered a bracket without a root")
'''
