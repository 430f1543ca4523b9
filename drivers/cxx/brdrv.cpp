// Brownian streams of RoughPy from seeds; one line in, one out.
//   new <width> <depth> <type: d|s> <storage: d|s> <generator> <seed> <lo> <hi> <res>
//   q <stream> <a> <b> <res>     the coordinates of the log-signature
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/scalars/random.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/stream.h>

#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace rpy;

static std::vector<streams::Stream> regs;

static std::string run(std::istream& in)
{
    std::string op;
    in >> op;
    if (op == "new") {
        deg_t w, d;
        std::string ty, st, gen;
        uint64_t seed;
        double lo, hi;
        int res;
        in >> w >> d >> ty >> st >> gen >> seed >> lo >> hi >> res;
        const auto* ctype = ty == "d" ? *scalars::ScalarType::of<double>() : *scalars::ScalarType::of<float>();
        auto ctx = algebra::get_context(w, d, ctype, {});
        auto vt = st == "d" ? algebra::VectorType::Dense : algebra::VectorType::Sparse;
        std::vector<scalars::seed_int_t> sd{seed};
        regs.emplace_back(streams::BrownianStream(
                ctype->get_rng(gen == "-" ? "" : gen, sd),
                {w, {lo, hi}, ctx, ctype, vt, res}
        ));
        return "ok";
    }
    size_t h;
    double a, b;
    int res;
    in >> h >> a >> b >> res;
    auto& s = regs.at(h - 1);
    const auto& ctx = s.get_default_context();
    auto l = s.log_signature(intervals::RealInterval(a, b), res, ctx);
    std::string out;
    auto n = ctx.lie_size(ctx.depth());
    for (dimn_t k = 1; k <= n; ++k) {
        const auto& cl = l;
        char buf[64];
        std::snprintf(buf, sizeof buf, "%s%.17g", k > 1 ? " " : "", scalars::scalar_cast<double>(cl[k]));
        out += buf;
    }
    return out;
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string out;
        try {
            std::istringstream in(line);
            out = run(in);
        } catch (std::exception& e) {
            out = std::string("exception ") + e.what();
            for (auto& c : out) {
                if (c == '\n') { c = ' '; }
            }
        }
        std::cout << out << std::endl;
    }
}
