// Makes planes of maps and reports what the observers of their progress are told.
//   simple|mercator|polar|ortho SAMPLES LINES PROGRADE EQ POL A B C D   choose the map
//   observer NAME | console NAME        subscribe
//   plane KEEP MIN MAX                  make a plane: the source has data for one point in KEEP (0: none)
//   gap NAME SIZE COUNT AGAIN           tell a console of its own directly
#include <marc/MapFactory.h>
#include <marc/Mercator.h>
#include <marc/OblateSpheroid.h>
#include <marc/Observer.h>
#include <marc/Orthographic.h>
#include <marc/PolarStereographic.h>
#include <marc/SimpleCylindrical.h>
#include <marc/SourceImage.h>
#include <marc/plot_info.h>
#if __has_include("ProgressConsole.h")
#include "ProgressConsole.h"
#define CONSOLE 1
#endif
#include <cmath>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>

using namespace MaRC;

static std::ostringstream shown;

static std::string take()
{
    std::string s = shown.str(), r;
    shown.str("");
    for (char c : s)
        if (c == '\n') r += "\\n"; else r += c;
    return r;
}

struct Watch : Progress::Observer {
    std::string name;
    std::unique_ptr<Progress::Observer> inner;
    Watch(std::string n, std::unique_ptr<Progress::Observer> i = nullptr) : name(std::move(n)), inner(std::move(i)) {}
    void notify(std::size_t size, std::size_t count) override
    {
        if (inner) inner->notify(size, count);
        std::fprintf(stdout, "@told %s %zu %zu %d %s\n", name.c_str(), size, count, inner ? 1 : 0, take().c_str());
    }
    void reset() override
    {
        if (inner) inner->reset();
        std::fprintf(stdout, "@reset %s\n", name.c_str());
    }
};

struct Source : SourceImage {
    int keep;
    explicit Source(int k) : keep(k) {}
    mutable long n = 0;
    using SourceImage::read_data;
    bool read_data(double, double, double & data) const override
    {
        data = static_cast<double>(n % 7);
        ++n;
        return keep && n % keep == 0;
    }
};

int main()
{
    std::cout.rdbuf(shown.rdbuf());
    std::unique_ptr<MapFactory> f;
    std::unique_ptr<plot_info<double>> info;
    std::map<std::string, std::unique_ptr<Progress::Observer>> own;
    std::size_t samples = 0, lines = 0;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string op;
        s >> op;
        if (op == "observer" || op == "console") {
            std::string n;
            s >> n;
            std::unique_ptr<Progress::Observer> in;
#ifdef CONSOLE
            if (op == "console") in = std::make_unique<Progress::Console>();
#endif
            info->notifier().subscribe(std::make_unique<Watch>(n, std::move(in)));
            std::printf("@subscribe %s\n", n.c_str());
        } else if (op == "plane") {
            int keep; double lo, hi;
            s >> keep >> lo >> hi;
            std::printf("@plane %zu\n", samples * lines);
            extrema<double> none, e;
            e.minimum(lo); e.maximum(hi);
            Source src(keep), all(1);
            try {
                f->make_map<double>(src, e, *info);
                plot_info<double> other(samples, lines);
                auto m = f->make_map<double>(all, none, other);
                std::size_t body = 0;
                for (double v : m) body += !std::isnan(v);
                std::printf("@made %zu\n", body);
            } catch (std::exception const & x) { std::printf("@failed %s\n", x.what()); }
        } else if (op == "gap") {
            std::string n; std::size_t size, count; int again;
            s >> n >> size >> count >> again;
#ifdef CONSOLE
            auto & o = own[n];
            if (!o) { o = std::make_unique<Progress::Console>(); std::printf("@subscribe %s\n", n.c_str()); }
            o->notify(size, count);
            std::printf("@gap %s %zu %zu %d %s\n", n.c_str(), size, count, again, take().c_str());
            if (again) o->reset();
#endif
        } else {
            bool pro; double eq, pol, a, b, c, d;
            s >> samples >> lines >> pro >> eq >> pol >> a >> b >> c >> d;
            auto body = std::make_shared<OblateSpheroid>(pro, eq, pol);
            if (op == "simple") f = std::make_unique<SimpleCylindrical>(body, a, b, c, d, false);
            else if (op == "mercator") f = std::make_unique<Mercator>(body);
            else if (op == "polar") f = std::make_unique<PolarStereographic>(body, a, b > 0);
            else {
                OrthographicCenter center(DEFAULT, 0, 0);
                f = std::make_unique<Orthographic>(body, a, b, c, d, center);
            }
            info = std::make_unique<plot_info<double>>(samples, lines);
        }
        std::fflush(stdout);
    }
    return 0;
}
