// Executes commands on the scalars and scalar arrays of RoughPy; one line in,
// one line out.
#include <roughpy/platform/archives.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/scalar_serialization.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>

#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace rpy;
using namespace rpy::scalars;
using Q = rational_scalar_type;
using P = rational_poly_scalar;

static std::vector<std::unique_ptr<Scalar>> regs(8);
static std::vector<std::unique_ptr<ScalarArray>> arrs(4);
static std::vector<std::shared_ptr<void>> mems(4);

#define TYPES(X) X("i1", int8_t) X("i2", int16_t) X("i4", int32_t) X("i8", int64_t) X("u1", uint8_t) \
    X("u2", uint16_t) X("u4", uint32_t) X("u8", uint64_t) X("h", half) X("b", bfloat16) \
    X("f", float) X("d", double) X("Q", Q) X("P", P)

static const ScalarType* type_named(const std::string& t)
{
    // integers are values without a scalar type
#define X(N, T) if (t == N) { auto o = scalar_type_of<T>(); return o ? *o : nullptr; }
    TYPES(X)
#undef X
    throw std::runtime_error("no type " + t);
}

static devices::TypeInfo info_named(const std::string& t)
{
#define X(N, T) if (t == N) return devices::type_info<T>();
    TYPES(X)
#undef X
    throw std::runtime_error("no type " + t);
}

static std::string name_of(devices::TypeInfo i)
{
#define X(N, T) if (i == devices::type_info<T>()) return N;
    TYPES(X)
#undef X
    return "?" + std::to_string(int(i.code)) + "." + std::to_string(int(i.bytes));
}

// exact values: integer m, power of two
static std::string dyad(double x)
{
    if (std::isnan(x) || std::isinf(x)) return "inf";
    int e;
    double m = std::frexp(x, &e);
    char buf[64];
    std::snprintf(buf, sizeof buf, "%lldp%d", (long long) std::ldexp(m, 53), e - 53);
    return buf;
}
static std::string val(int8_t x) { return std::to_string(x); }
static std::string val(int16_t x) { return std::to_string(x); }
static std::string val(int32_t x) { return std::to_string(x); }
static std::string val(int64_t x) { return std::to_string(x); }
static std::string val(uint8_t x) { return std::to_string(x); }
static std::string val(uint16_t x) { return std::to_string(x); }
static std::string val(uint32_t x) { return std::to_string(x); }
static std::string val(uint64_t x) { return std::to_string(x); }
static std::string val(half x) { return dyad(float(x)); }
static std::string val(bfloat16 x) { return dyad(float(x)); }
static std::string val(float x) { return dyad(x); }
static std::string val(double x) { return dyad(x); }
template <typename T>
static std::string printed(const T& x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
static std::string val(const Q& x) { return printed(x); }
static std::string val(const P& x) { return printed(x); }

static std::string show(const Scalar& s)
{
    std::string t, v;
    if (s.packed_type_info().is_null()) {
        t = "0";
        v = "0";
    } else {
        t = name_of(s.type_info());
        v = "?";
        const void* p = s.pointer();
        if (!p) {
            v = "0";
        }
#define X(N, T) else if (t == N) v = val(*static_cast<const T*>(p));
        TYPES(X)
#undef X
    }
    return "{\"t\":\"" + t + "\",\"v\":\"" + v + "\"}";
}

static std::string show(const ScalarArray& a)
{
    std::string out = "{\"t\":\"" + (a.is_null() ? std::string("0") : name_of(a.type_info())) + "\",\"v\":[";
    for (dimn_t i = 0; i < a.size(); ++i) { out += (i ? "," : "") + show(a[i]); }
    return out + "]}";
}

template <typename Out, typename In, typename T>
static T again(const T& x)
{
    std::stringstream ss;
    {
        Out oa(ss);
        oa(serial::make_nvp("data", x));
    }
    T y;
    {
        In ia(ss);
        ia(serial::make_nvp("data", y));
    }
    return y;
}

template <typename T>
static std::string cast_to(const Scalar& s)
{
    return val(scalar_cast<T>(s));
}

static P poly_from(std::istream& in)
{
    // n, then n times: coefficient, number of letters, letters with powers
    P out;
    int n;
    in >> n;
    while (n--) {
        std::string c;
        int k;
        in >> c >> k;
        monomial m;
        while (k--) {
            std::string l;
            int e;
            in >> l >> e;
            m *= monomial(indeterminate_type(l[0], std::stoll(l.substr(1))), e);
        }
        out += P(m, Q(c));
    }
    return out;
}

template <typename T>
static T number(std::istream& in)
{
    if constexpr (std::is_same_v<T, P>) {
        return poly_from(in);
    } else if constexpr (std::is_same_v<T, Q>) {
        std::string s;
        in >> s;
        return Q(s);
    } else if constexpr (std::is_integral_v<T>) {
        std::string s;
        in >> s;
        return s[0] == '-' ? T(std::stoll(s)) : T(std::stoull(s));
    } else {
        double x;
        in >> x;
        return T(float(x) == x ? float(x) : x);
    }
}
template <>
double number<double>(std::istream& in)
{
    double x;
    in >> x;
    return x;
}

template <typename T>
static std::shared_ptr<void> hold(std::istream& in, int n)
{
    auto v = std::make_shared<std::vector<T>>();
    for (int i = 0; i < n; ++i) { v->push_back(number<T>(in)); }
    return std::shared_ptr<void>(v, v->data());
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd, t, form;
        in >> cmd;
        std::string out;
        int r = 0, a = 0, b = 0, k = 0;
        try {
            if (cmd == "mk") {
                // r type form value
                in >> r >> t >> form;
                const auto* tp = type_named(t);
                if (form == "double") {
                    double x;
                    in >> x;
                    regs[r] = std::make_unique<Scalar>(tp, x);
                } else if (form == "int") {
                    int64_t x;
                    in >> x;
                    regs[r] = std::make_unique<Scalar>(tp, x);
                } else if (form == "rat") {
                    int64_t n, d;
                    in >> n >> d;
                    regs[r] = std::make_unique<Scalar>(tp, n, d);
                } else if (form == "q") {
                    std::string s;
                    in >> s;
                    regs[r] = std::make_unique<Scalar>(tp, Q(s));
                } else if (form == "poly") {
                    regs[r] = std::make_unique<Scalar>(tp, poly_from(in));
                } else if (form == "zero") {
                    regs[r] = std::make_unique<Scalar>(tp);
                } else if (form == "info") {
                    regs[r] = std::make_unique<Scalar>(info_named(t));
                } else if (form == "null") {
                    regs[r] = std::make_unique<Scalar>();
                } else if (form == "own") {
                    // from a value of the type itself
                    if (false) {}
#define X(N, T) else if (t == N) regs[r] = std::make_unique<Scalar>(number<T>(in));
                    TYPES(X)
#undef X
                }
                out = show(*regs[r]);
            } else if (cmd == "copy") {
                in >> r >> a;
                auto s = std::make_unique<Scalar>(*regs[a]);
                regs[r] = std::move(s);
                out = show(*regs[r]);
            } else if (cmd == "assign") {
                in >> r >> a;
                *regs[r] = *regs[a];
                out = show(*regs[r]);
            } else if (cmd == "massign") {
                in >> r >> a;
                *regs[r] = Scalar(*regs[a]);
                out = show(*regs[r]);
            } else if (cmd == "put") {
                in >> r >> form;
                if (form == "double") {
                    double x;
                    in >> x;
                    *regs[r] = x;
                } else if (form == "int") {
                    int64_t x;
                    in >> x;
                    *regs[r] = x;
                } else {
                    std::string s;
                    in >> s;
                    *regs[r] = Q(s);
                }
                out = show(*regs[r]);
            } else if (cmd == "add" || cmd == "sub" || cmd == "mul" || cmd == "div") {
                in >> r >> a >> b;
                const Scalar &x = *regs[a], &y = *regs[b];
                Scalar z = cmd == "add" ? x + y : cmd == "sub" ? x - y : cmd == "mul" ? x * y : x / y;
                regs[r] = std::make_unique<Scalar>(std::move(z));
                out = show(*regs[r]);
            } else if (cmd == "neg") {
                in >> r >> a;
                regs[r] = std::make_unique<Scalar>(-*regs[a]);
                out = show(*regs[r]);
            } else if (cmd == "iadd" || cmd == "isub" || cmd == "imul" || cmd == "idiv") {
                in >> r >> a;
                Scalar& x = *regs[r];
                const Scalar& y = *regs[a];
                if (cmd == "iadd") x += y;
                if (cmd == "isub") x -= y;
                if (cmd == "imul") x *= y;
                if (cmd == "idiv") x /= y;
                out = show(*regs[r]);
            } else if (cmd == "eq") {
                in >> a >> b;
                const bool e = *regs[a] == *regs[b], n = *regs[a] != *regs[b];
                out = std::string("[") + (e ? "true" : "false") + "," + (n ? "true" : "false") + "]";
            } else if (cmd == "iszero") {
                in >> a;
                out = regs[a]->is_zero() ? "true" : "false";
            } else if (cmd == "cast") {
                in >> a >> t;
                std::string v;
                if (false) {}
#define X(N, T) else if (t == N) v = cast_to<T>(*regs[a]);
                TYPES(X)
#undef X
                out = "\"" + v + "\"";
            } else if (cmd == "print") {
                in >> a;
                out = "\"" + printed(*regs[a]) + "\"";
            } else if (cmd == "ser") {
                in >> r >> a >> form;
                auto s = form == "json"
                        ? again<archives::JSONOutputArchive, archives::JSONInputArchive>(*regs[a])
                        : again<archives::PortableBinaryOutputArchive, archives::PortableBinaryInputArchive>(*regs[a]);
                regs[r] = std::make_unique<Scalar>(std::move(s));
                out = show(*regs[r]);
            } else if (cmd == "anew") {
                in >> r >> t >> k;
                const auto* tp = type_named(t);
                arrs[r] = tp ? std::make_unique<ScalarArray>(tp, dimn_t(k))
                             : std::make_unique<ScalarArray>(info_named(t), dimn_t(k));
                out = show(*arrs[r]);
            } else if (cmd == "adata") {
                // an array on memory of another owner
                in >> r >> t >> k;
                std::shared_ptr<void> mem;
                if (false) {}
#define X(N, T) else if (t == N) mem = hold<T>(in, k);
                TYPES(X)
#undef X
                const auto* tp = type_named(t);
                arrs[r] = tp ? std::make_unique<ScalarArray>(tp, mem.get(), dimn_t(k))
                             : std::make_unique<ScalarArray>(info_named(t), mem.get(), dimn_t(k));
                mems[r] = mem;
                out = show(*arrs[r]);
            } else if (cmd == "aget") {
                // a reference into the array becomes the register's value
                in >> r >> a >> k;
                regs[r] = std::make_unique<Scalar>(static_cast<const ScalarArray&>(*arrs[a])[k]);
                regs[r] = std::make_unique<Scalar>(*regs[r]);
                out = show(*regs[r]);
            } else if (cmd == "aput" || cmd == "aadd" || cmd == "asub" || cmd == "amul" || cmd == "adiv") {
                in >> r >> k >> a;
                Scalar ref = (*arrs[r])[k];
                const Scalar& y = *regs[a];
                if (cmd == "aput") ref = y;
                if (cmd == "aadd") ref += y;
                if (cmd == "asub") ref -= y;
                if (cmd == "amul") ref *= y;
                if (cmd == "adiv") ref /= y;
                out = show(*arrs[r]);
            } else if (cmd == "acopy") {
                in >> r >> a;
                auto s = std::make_unique<ScalarArray>(*arrs[a]);
                arrs[r] = std::move(s);
                out = show(*arrs[r]);
            } else if (cmd == "aassign") {
                in >> r >> a;
                *arrs[r] = *arrs[a];
                out = show(*arrs[r]);
            } else if (cmd == "aconv") {
                in >> r >> a;
                (*arrs[r]->type())->convert_copy(*arrs[r], *arrs[a]);
                out = show(*arrs[r]);
            } else if (cmd == "afill") {
                in >> r >> a;
                (*arrs[r]->type())->assign(*arrs[r], *regs[a]);
                out = show(*arrs[r]);
            } else if (cmd == "aser") {
                in >> r >> a >> form;
                auto s = form == "json"
                        ? again<archives::JSONOutputArchive, archives::JSONInputArchive>(*arrs[a])
                        : again<archives::PortableBinaryOutputArchive, archives::PortableBinaryInputArchive>(*arrs[a]);
                arrs[r] = std::make_unique<ScalarArray>(std::move(s));
                out = show(*arrs[r]);
            } else if (cmd == "show") {
                in >> a;
                out = show(*regs[a]);
            } else if (cmd == "ashow") {
                in >> a;
                out = show(*arrs[a]);
            }
        } catch (const std::exception& e) {
            std::string w = e.what();
            for (auto& c : w) if (c == '"' || c == '\\' || c == '\n') c = ' ';
            out = "{\"exc\":\"" + w.substr(0, 120) + "\"}";
        }
        std::cout << out << std::endl;
    }
    regs.clear();
    arrs.clear();
    return 0;
}
