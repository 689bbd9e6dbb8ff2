// Reads commands on sets of map facts (MaRC::map_parameters) and answers "get" and "merge".
//   new ID PLANE | type ID BITPIX | set ID KEY VALUE | comment ID VALUE | xcomment ID VALUE
//   merge TO FROM -> "@merge 0|1" | get ID -> "@get ..." lines
#include "map_parameters.h"
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

using P = MaRC::map_parameters;

static void str(char const * k, std::string const & v) { std::printf("@%s %s\n", k, v.c_str()); }
static void dbl(char const * k, std::optional<double> v)
{
    if (v) std::printf("@%s %.17g\n", k, *v);
    else std::printf("@%s \n", k);
}

int main()
{
    std::map<int, std::unique_ptr<P>> r;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string op, key, val;
        int id = 0;
        s >> op >> id;
        if (op == "new") { int p = 0; s >> p; r[id] = p ? std::make_unique<P>(p) : std::make_unique<P>(); continue; }
        P & p = *r.at(id);
        if (op == "type") {
            int b = 0; s >> b;
            try { p.bitpix(b); std::printf("@type 1\n"); } catch (std::exception const &) { std::printf("@type 0\n"); }
        } else if (op == "comment" || op == "xcomment") {
            s >> val;
            if (op == "comment") p.push_comment(val); else p.push_xcomment(val);
        } else if (op == "set") {
            s >> key >> val;
            auto d = [&] { return std::optional<double>(std::stod(val)); };
            if (key == "author") p.author(val);
            else if (key == "blank") p.blank(std::stoll(val));
            else if (key == "scale") p.bscale(d());
            else if (key == "unit") p.bunit(val);
            else if (key == "offset") p.bzero(d());
            else if (key == "equinox") p.equinox(d());
            else if (key == "instrument") p.instrument(val);
            else if (key == "object") p.object(val);
            else if (key == "observer") p.observer(val);
            else if (key == "origin") p.origin(val);
            else if (key == "reference") p.reference(val);
            else if (key == "telescope") p.telescope(val);
        } else if (op == "merge") {
            int f = 0; s >> f;
            bool ok = false;
            try { ok = p.merge(*r.at(f)); } catch (std::exception const &) {}
            std::printf("@merge %d\n", ok);
        } else if (op == "get") {
            int b = 0;
            try { b = p.bitpix(); } catch (std::exception const &) {}
            std::printf("@type %d\n", b);
            str("author", p.author());
            if (p.blank()) std::printf("@blank %lld\n", static_cast<long long>(*p.blank())); else std::printf("@blank \n");
            dbl("scale", p.bscale()); str("unit", p.bunit()); dbl("offset", p.bzero()); dbl("equinox", p.equinox());
            str("instrument", p.instrument()); str("object", p.object()); str("observer", p.observer());
            str("origin", p.origin()); str("reference", p.reference()); str("telescope", p.telescope());
            for (auto const & c : p.comments()) str("comment", c);
            for (auto const & c : p.xcomments()) str("xcomment", c);
            std::printf("@end \n");
        }
        std::fflush(stdout);
    }
    return 0;
}
