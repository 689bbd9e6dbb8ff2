ID = "data-that-fill-the-type"
PROPERTY = "C29"
NEEDS = "a range of data exactly as long as that of the integer type"
BREAKS = "no scale and offset are found for data that fit the type"
EDITS = [("lib/marc/details/scale_and_offset.h",
          "                    || data_range > type_range) {",
          "                    || data_range >= type_range) {")]
DEMO = '''
src = r"""
#include <marc/scale_and_offset.h>
#include <cstdint>
int main()
{
    double s = 0, o = 0;
    if (!MaRC::scale_and_offset<std::uint8_t>(0, 255, s, o) || s != 1 || o != 0) return 1;
    if (!MaRC::scale_and_offset<std::int16_t>(-32768, 32767, s, o) || s != 1 || o != 0) return 2;
    return MaRC::scale_and_offset<std::uint8_t>(0, 256, s, o) ? 3 : 0;
}
"""
with Scratch() as s:
    s.put("t.cpp", src)
    r = subprocess.run("g++ -std=gnu++17 -I%s/lib t.cpp -o t && ./t" % os.getcwd(), shell=True, cwd=s.dir)
    check(r.returncode == 0, "data that fill the type were refused")
'''
