ID = "converted-range-with-one-bound"
PROPERTY = "C29"
NEEDS = "a range of which only one bound is set, converted to another data type"
BREAKS = "the bound that is set is lost in the conversion"
EDITS = [("lib/marc/extrema.h",
          "            if (maximum)\n                this->maximum_ = validate_maximum(*maximum);",
          "            if (minimum && maximum)\n                this->maximum_ = validate_maximum(*maximum);")]
DEMO = '''
src = r"""
#include <marc/extrema.h>
int main()
{
    MaRC::extrema<double> d;
    d.maximum(7.0);
    MaRC::extrema<short> s(d);
    if (s.minimum() || !s.maximum() || *s.maximum() != 7) return 1;
    MaRC::extrema<double> e;
    e.minimum(-3.0);
    MaRC::extrema<short> t(e);
    return t.maximum() || !t.minimum() || *t.minimum() != -3;
}
"""
with Scratch() as s:
    s.put("t.cpp", src)
    r = subprocess.run("g++ -std=gnu++17 -I%s/lib t.cpp -o t && ./t" % os.getcwd(), shell=True, cwd=s.dir)
    check(r.returncode == 0, "a bound was lost in the conversion")
'''
