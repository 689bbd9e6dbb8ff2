// Answers requests on ranges of values (extrema), angles, scales and plotting information, one line each.
#include <marc/Map_traits.h>
#include <marc/Validate.h>
#include <marc/extrema.h>
#include <marc/plot_info.h>
#include <marc/scale_and_offset.h>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

static constexpr int per_type = 3;
template <typename T> using bank = std::array<MaRC::extrema<T>, per_type>;
static std::tuple<bank<std::uint8_t>, bank<std::int16_t>, bank<std::int32_t>, bank<std::int64_t>, bank<float>, bank<double>> banks;

template <typename F> static void with(std::string const & t, F f)
{
    if (t == "u8") f(std::uint8_t{});
    else if (t == "i16") f(std::int16_t{});
    else if (t == "i32") f(std::int32_t{});
    else if (t == "i64") f(std::int64_t{});
    else if (t == "f32") f(float{});
    else if (t == "f64") f(double{});
    else std::abort();
}

static double word(std::istream & s)
{
    std::string w;
    s >> w;
    return std::strtod(w.c_str(), nullptr);
}

template <typename T> static MaRC::extrema<T> & at(int i) { return std::get<bank<T>>(banks).at(static_cast<std::size_t>(i)); }

template <typename O> static void bound(O const & o)
{
    if (o) std::printf(" %.17g", static_cast<double>(*o)); else std::printf(" -");
}

static std::vector<double> probes;

template <typename T> static void say(MaRC::extrema<T> const & e)
{
    std::printf(" |");
    bound(e.minimum()); bound(e.maximum());
    std::printf(" %d", e.is_valid() ? 1 : 0);
    for (auto v : probes) std::printf(" %d", e.in_range(v) ? 1 : 0);
}

template <typename F> static bool done(F f)
{
    try { f(); } catch (std::invalid_argument const &) { return false; }
    return true;
}

int main()
{
    std::string text;
    while (std::getline(std::cin, text)) {
        std::istringstream s(text);
        std::string op, t, u;
        s >> op;
        if (op == "angle") {
            double x, r = 0;
            s >> t;
            x = word(s);
            bool const ok = done([&] { r = t == "lat" ? MaRC::validate_latitude(x) : t == "lon" ? MaRC::validate_longitude(x) : MaRC::validate_position_angle(x); });
            std::printf("@angle %d %.17g\n", ok ? 1 : 0, r);
        } else if (op == "empty") {
            s >> t;
            with(t, [&](auto z) { std::printf("@empty %.17g\n", static_cast<double>(MaRC::Map_traits<decltype(z)>::empty_value())); });
        } else if (op == "scale") {
            s >> t;
            double const lo = word(s), hi = word(s);
            double k = 0, o = 0;
            with(t, [&](auto z) {
                bool const ok = MaRC::scale_and_offset<decltype(z)>(lo, hi, k, o);
                std::printf("@scale %d %.17g %.17g\n", ok ? 1 : 0, k, o);
            });
        } else if (op == "plot") {
            std::string kind;
            std::size_t w = 0, h = 0;
            int n = 0;
            s >> t >> w >> h >> kind;
            double const b = word(s);
            s >> n;
            with(t, [&](auto z) {
                using T = decltype(z);
                auto go = [&](auto & info) {
                    for (int i = 0; i < n; ++i) info.update_extrema(static_cast<T>(word(s)));
                    std::printf("@plot |");
                    bound(info.minimum()); bound(info.maximum());
                    std::printf(" %d %zu %zu %zu", info.data_mapped() ? 1 : 0, static_cast<std::size_t>(info.data_count()),
                                static_cast<std::size_t>(info.samples()), static_cast<std::size_t>(info.lines()));
                    bound(info.blank());
                    std::printf("\n");
                };
                if (kind == "none") { MaRC::plot_info<T> info(w, h); go(info); }
                else if (kind == "real") { MaRC::plot_info<T> info(w, h, b); go(info); }
                else { MaRC::plot_info<T> info(w, h, MaRC::blank_type(static_cast<std::int64_t>(b))); go(info); }
            });
        } else {
            // OP TYPE INDEX TYPE INDEX VARIANT X Y NPROBES PROBES...
            int i = 0, j = 0, m = 0;
            std::string how;
            s >> t >> i >> u >> j >> how;
            double const x = word(s), y = word(s);
            s >> m;
            probes.clear();
            for (int q = 0; q < m; ++q) probes.push_back(word(s));
            with(t, [&](auto z) {
                using T = decltype(z);
                auto & e = at<T>(i);
                bool ok = true;
                bool same = false;
                if (op == "give") e.update(static_cast<T>(x));
                else if (op == "join") { e.update(at<T>(j)); }
                else if (op == "make") ok = done([&] {
                    if (how == "own") e = MaRC::make_extrema(static_cast<T>(x), static_cast<T>(y));
                    else if (how == "other") {
                        if constexpr (std::is_same<T, double>::value) e = MaRC::make_extrema(x, y);
                        else e = MaRC::make_extrema<T>(x, y);
                    } else e = MaRC::extrema<T>(x, y);
                });
                else if (op == "setlo") ok = done([&] { if (how == "own") e.minimum(static_cast<T>(x)); else e.minimum(x); });
                else if (op == "sethi") ok = done([&] { if (how == "own") e.maximum(static_cast<T>(x)); else e.maximum(x); });
                else if (op == "reset") e.reset();
                else if (op == "copy") {
                    same = true;
                    if (how == "own") e = at<T>(j);
                    else { MaRC::extrema<T> c(at<T>(j)); e = std::move(c); }
                } else if (op == "swap") {
                    same = true;
                    if (how == "own") e.swap(at<T>(j)); else { using std::swap; swap(e, at<T>(j)); }
                } else if (op == "carry") {
                    with(u, [&](auto zz) {
                        using U = decltype(zz);
                        if constexpr (!std::is_same<T, U>::value) {
                            ok = done([&] {
                                if (how == "own") { MaRC::extrema<T> c(at<U>(j)); e = c; }
                                else e = at<U>(j);
                            });
                        }
                    });
                } else std::abort();
                std::printf("@%s %d", op.c_str(), ok ? 1 : 0);
                say(e);
                if (same) say(at<T>(j));
                if (op == "carry") with(u, [&](auto zz) { say(at<decltype(zz)>(j)); });
                std::printf("\n");
            });
        }
    }
    return 0;
}
