// Executes commands on the interval classes of RoughPy; one line in, one out.
#include <roughpy/intervals/dyadic.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/segmentation.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

using namespace rpy;
using namespace rpy::intervals;

using Reg = std::variant<Dyadic, DyadicInterval, RealInterval, Partition>;
static std::vector<Reg> regs;

static std::string num(double x)
{
    char buf[64];
    std::snprintf(buf, sizeof buf, "%a", x);
    return buf;
}
static int op(const Interval& i) { return i.type() == IntervalType::Opencl; }
static IntervalType ty(int o) { return o ? IntervalType::Opencl : IntervalType::Clopen; }
static std::string cell(const DyadicInterval& c)
{
    std::ostringstream s;
    s << c.multiplier() << ' ' << c.power() << ' ' << op(c);
    return s.str();
}
static std::string show(const Reg& r)
{
    std::ostringstream s;
    if (auto* d = std::get_if<Dyadic>(&r)) {
        s << "D " << d->multiplier() << ' ' << d->power();
    } else if (auto* c = std::get_if<DyadicInterval>(&r)) {
        s << "C " << cell(*c);
    } else if (auto* i = std::get_if<RealInterval>(&r)) {
        s << "I " << num(i->inf()) << ' ' << num(i->sup()) << ' ' << op(*i);
    } else {
        auto& p = std::get<Partition>(r);
        s << "P " << num(p.inf()) << ' ' << num(p.sup()) << ' ' << op(p);
        for (auto x : p.intermediates()) s << ' ' << num(x);
    }
    return s.str();
}
static const Interval& iv(int h)
{
    Reg& r = regs[h - 1];
    if (auto* c = std::get_if<DyadicInterval>(&r)) return *c;
    if (auto* i = std::get_if<RealInterval>(&r)) return *i;
    return std::get<Partition>(r);
}
static DyadicInterval& di(int h) { return std::get<DyadicInterval>(regs[h - 1]); }
static Partition& pa(int h) { return std::get<Partition>(regs[h - 1]); }
static const Dyadic& dy(int h)
{
    if (auto* d = std::get_if<Dyadic>(&regs[h - 1])) return *d;
    return di(h);
}
static void put(std::size_t h, Reg v)
{
    if (h <= regs.size()) regs[h - 1] = std::move(v);
    else regs.push_back(std::move(v));
}
static double rd(std::istream& in)
{
    std::string s;
    in >> s;
    return std::strtod(s.c_str(), nullptr);
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        std::ostringstream out;
        int a = 0, b = 0, r = 0, n = 0, o = 0;
        long k = 0;
        try {
            if (cmd == "reset") { regs.clear(); out << "ok"; }
            else if (cmd == "show") { in >> a; out << show(regs[a - 1]); }
            else if (cmd == "mkd") { in >> r >> k >> n; put(r, Dyadic(int(k), n)); out << "ok"; }
            else if (cmd == "mkc") { in >> r >> k >> n >> o; put(r, DyadicInterval(int(k), n, ty(o))); out << "ok"; }
            else if (cmd == "mki") {
                in >> r;
                double x = rd(in), y = rd(in);
                in >> o;
                put(r, RealInterval(x, y, ty(o)));
                out << "ok";
            }
            else if (cmd == "rebase") { in >> a >> n; out << std::get<Dyadic>(regs[a - 1]).rebase(n); }
            else if (cmd == "iadd") { in >> a >> k; std::get<Dyadic>(regs[a - 1]).move_forward(int(k)); out << "ok"; }
            else if (cmd == "dincl") { in >> a >> r; put(r, di(a).dincluded_end()); out << "ok"; }
            else if (cmd == "dexcl") { in >> a >> r; put(r, di(a).dexcluded_end()); out << "ok"; }
            else if (cmd == "dinf") { in >> a >> r; put(r, di(a).dinf()); out << "ok"; }
            else if (cmd == "dsup") { in >> a >> r; put(r, di(a).dsup()); out << "ok"; }
            else if (cmd == "contained") { in >> a >> r >> n; put(r, di(a).shrink_to_contained_end(n)); out << "ok"; }
            else if (cmd == "omitted") { in >> a >> r; put(r, di(a).shrink_to_omitted_end()); out << "ok"; }
            else if (cmd == "left") { in >> a >> n; di(a).shrink_interval_left(n); out << "ok"; }
            else if (cmd == "right") { in >> a; di(a).shrink_interval_right(); out << "ok"; }
            else if (cmd == "flip") { in >> a; di(a).flip_interval(); out << "ok"; }
            else if (cmd == "expand") { in >> a >> n; di(a).expand_interval(n); out << "ok"; }
            else if (cmd == "advance") { in >> a; di(a).advance(); out << "ok"; }
            else if (cmd == "cell") { in >> a >> r >> n >> o; put(r, DyadicInterval(dy(a), n, ty(o))); out << "ok"; }
            else if (cmd == "cellat") {
                in >> r;
                double x = rd(in);
                in >> n >> o;
                put(r, DyadicInterval(x, n, ty(o)));
                out << "ok";
            }
            else if (cmd == "real") { in >> a >> r; put(r, RealInterval(iv(a))); out << "ok"; }
            else if (cmd == "copy") { in >> a >> r; put(r, Reg(regs[a - 1])); out << "ok"; }
            else if (cmd == "part") {
                in >> a >> r >> n;
                std::vector<param_t> pts;
                for (int j = 0; j < n; ++j) pts.push_back(rd(in));
                put(r, Partition(std::get<RealInterval>(regs[a - 1]), pts));
                out << "ok";
            }
            else if (cmd == "midpoints") { in >> a >> r; put(r, pa(a).refine_midpoints()); out << "ok"; }
            else if (cmd == "insert") { in >> a; pa(a).insert_intermediate(rd(in)); out << "ok"; }
            else if (cmd == "merge") { in >> a >> b >> r; put(r, pa(a).merge(pa(b))); out << "ok"; }
            else if (cmd == "float") { in >> a; out << num(static_cast<param_t>(dy(a))); }
            else if (cmd == "lt") { in >> a >> b; out << (dy(a) < dy(b)); }
            else if (cmd == "le") { in >> a >> b; out << (dy(a) <= dy(b)); }
            else if (cmd == "gt") { in >> a >> b; out << (dy(a) > dy(b)); }
            else if (cmd == "ge") { in >> a >> b; out << (dy(a) >= dy(b)); }
            else if (cmd == "deq") { in >> a >> b; out << dyadic_equals(dy(a), dy(b)); }
            else if (cmd == "req") { in >> a >> b; out << rational_equals(dy(a), dy(b)); }
            else if (cmd == "ends") {
                in >> a;
                auto& i = iv(a);
                out << num(i.inf()) << ' ' << num(i.sup()) << ' ' << num(i.included_end()) << ' ' << num(i.excluded_end());
            }
            else if (cmd == "haspoint") { in >> a; out << iv(a).contains_point(rd(in)); }
            else if (cmd == "hasiv") { in >> a >> b; out << iv(a).contains(iv(b)); }
            else if (cmd == "meet") { in >> a >> b; out << iv(a).intersects_with(iv(b)); }
            else if (cmd == "eq") { in >> a >> b; out << (static_cast<const Interval&>(iv(a)) == iv(b)); }
            else if (cmd == "cellless") { in >> a >> b; out << (di(a) < di(b)); }
            else if (cmd == "cellhas") { in >> a >> b; out << di(a).contains_dyadic(di(b)); }
            else if (cmd == "aligned") { in >> a; out << di(a).aligned(); }
            else if (cmd == "cellsort") {
                std::vector<DyadicInterval> v;
                while (in >> a) v.push_back(di(a));
                std::sort(v.begin(), v.end());
                for (auto& c : v) out << cell(c) << ' ';
            }
            else if (cmd == "dissect") {
                in >> a >> n >> o;
                for (auto& c : to_dyadic_intervals(iv(a), n, ty(o))) out << cell(c) << ' ';
            }
            else if (cmd == "plen") { in >> a; out << pa(a).size(); }
            else if (cmd == "piece") { in >> a >> n; auto i = pa(a)[n]; out << num(i.inf()) << ' ' << num(i.sup()) << ' ' << op(i); }
            else if (cmd == "mesh") { in >> a; out << num(pa(a).mesh()); }
            else if (cmd == "points") { in >> a; for (auto x : pa(a).intermediates()) out << num(x) << ' '; }
            else if (cmd == "peq") { in >> a >> b; out << (pa(a) == pa(b)); }
            else if (cmd == "segment") {
                // the predicate: no overlap with any of the given closed sets
                in >> a >> n >> k;
                std::vector<std::pair<double, double>> bad;
                for (long j = 0; j < k; ++j) { double x = rd(in); bad.emplace_back(x, rd(in)); }
                auto res = segment(iv(a), [&](const Interval& i) {
                    for (auto& q : bad) if (q.first < i.sup() && i.inf() < q.second) return false;
                    return true;
                }, n);
                for (auto& i : res) out << num(i.inf()) << ' ' << num(i.sup()) << ' ' << op(i) << ' ';
            }
            else { out << "unknown"; }
        } catch (const std::exception& e) {
            out.str("");
            out << "error";
        }
        std::cout << out.str() << std::endl;
    }
    return 0;
}
