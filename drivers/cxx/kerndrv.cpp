// Runs the header-only kernels of roughpy_compute on views with exact
// rational coefficients.  One call per input line, one answer per output line
// (see drv_kern.py).
#undef NDEBUG
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <iterator>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

using I = __int128;
constexpr I iabs(I a) { return a < 0 ? -a : a; }
constexpr I igcd(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
// an overflow is a mistake of the generator, not of the kernels
constexpr I mul(I a, I b) { I r = 0; if (__builtin_mul_overflow(a, b, &r)) std::_Exit(77); return r; }
constexpr I add(I a, I b) { I r = 0; if (__builtin_add_overflow(a, b, &r)) std::_Exit(77); return r; }

struct Q {
    I n, d;
    Q() = default;
    constexpr Q(int v) : n(v), d(1) {}
    constexpr Q(I a, I b, int) : n(a), d(b) { norm(); }
    constexpr void norm() { if (d < 0) { n = -n; d = -d; } I g = igcd(n, d); if (g > 1) { n /= g; d /= g; } }
    friend constexpr Q operator+(Q a, Q b) { return {add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d), 0}; }
    friend constexpr Q operator-(Q a) { a.n = -a.n; return a; }
    friend constexpr Q operator-(Q a, Q b) { return a + (-b); }
    friend constexpr Q operator*(Q a, Q b) { return {mul(a.n, b.n), mul(a.d, b.d), 0}; }
    friend constexpr Q operator/(Q a, Q b) { return {mul(a.n, b.d), mul(a.d, b.n), 0}; }
    constexpr Q& operator+=(Q b) { return *this = *this + b; }
    constexpr Q& operator-=(Q b) { return *this = *this - b; }
    constexpr Q& operator*=(Q b) { return *this = *this * b; }
    constexpr Q& operator/=(Q b) { return *this = *this / b; }
    friend constexpr bool operator==(Q a, Q b) { return a.n == b.n && a.d == b.d; }
    friend constexpr bool operator!=(Q a, Q b) { return !(a == b); }
};

#include "roughpy_compute/common/basis.hpp"
#include "roughpy_compute/common/operations.hpp"
#include "roughpy_compute/common/sparse_matrix.hpp"
#include "roughpy_compute/dense/views.hpp"
#include "roughpy_compute/dense/basic/apply_sparse_linear_map.hpp"
#include "roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp"
#include "roughpy_compute/dense/basic/free_tensor_antipode.hpp"
#include "roughpy_compute/dense/basic/free_tensor_fma.hpp"
#include "roughpy_compute/dense/basic/free_tensor_inplace_mul.hpp"
#include "roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp"
#include "roughpy_compute/dense/basic/shuffle_tensor_product.hpp"
#include "roughpy_compute/dense/basic/vector_addition.hpp"
#include "roughpy_compute/dense/basic/vector_inplace_addition.hpp"
#include "roughpy_compute/dense/basic/vector_inplace_scalar_multiply.hpp"
#include "roughpy_compute/dense/basic/vector_scalar_multiply.hpp"
#include "roughpy_compute/dense/intermediate/free_tensor_exp.hpp"
#include "roughpy_compute/dense/intermediate/free_tensor_fmexp.hpp"
#include "roughpy_compute/dense/intermediate/free_tensor_log.hpp"

using namespace rpy::compute;

static std::string str(Q q)
{
    auto num = [](I v) {
        std::string s;
        bool neg = v < 0;
        v = iabs(v);
        do { s += char('0' + int(v % 10)); v /= 10; } while (v);
        if (neg) s += '-';
        std::reverse(s.begin(), s.end());
        return s;
    };
    return q.d == 1 ? num(q.n) : num(q.n) + "/" + num(q.d);
}

static Q readq(std::istream& in)
{
    std::string s;
    in >> s;
    auto p = s.find('/');
    return p == std::string::npos ? Q(std::stoll(s), 1, 0) : Q(std::stoll(s.substr(0, p)), std::stoll(s.substr(p + 1)), 0);
}

constexpr int GUARD = 64;
static const Q SENT(987654321, 1, 0);

// the memory behind a view: the coefficients at a stride, guards all around
struct Mem {
    int stride, depth, lo, hi;
    std::vector<std::ptrdiff_t> begin;
    std::vector<Q> buf, orig;
    int n = 0;

    void read(std::istream& in)
    {
        in >> stride >> depth >> lo >> hi;
        begin.resize(depth + 2);
        for (auto& b : begin) in >> b;
        n = int(begin.back());
        buf.assign(2 * GUARD + n * stride, SENT);
        for (int i = 0; i < n; ++i) buf[GUARD + i * stride] = readq(in);
        orig = buf;
    }
    Q* data() { return buf.data() + GUARD; }
    bool clean(bool written)
    {
        for (int i = 0; i < int(buf.size()); ++i) {
            int k = i - GUARD;
            bool coef = k >= 0 && k < n * stride && k % stride == 0;
            if (buf[i] != orig[i] && !(coef && written)) return false;
        }
        return true;
    }
};

template <typename F>
void with_op(std::string const& k, Q c, F&& f)
{
    if (k == "id") f(ops::Identity{});
    else if (k == "neg") f(ops::Negate{});
    else if (k == "mul") f(ops::MultiplyBy<Q>(c));
    else if (k == "rmul") f(ops::RightMultiplyBy<Q>(c));
    else f(ops::DivideBy<Q>(c));
}

struct NoSign {
    template <typename D> void for_degree(D) {}
    template <typename S> constexpr S operator()(S a) const noexcept { return a; }
};

template <typename It> struct Make;
template <> struct Make<Q*> { static Q* of(Mem& m) { return m.data(); } };
template <> struct Make<StridedDenseIterator<Q*>> {
    static StridedDenseIterator<Q*> of(Mem& m) { return {m.data(), m.stride}; }
};

template <typename It>
void call(std::string const& op, int W, std::string const& k, Q c, std::string const& k2, Q c2, std::vector<Mem>& m)
{
    auto view = [&](int i) {
        return DenseTensorView<It>(Make<It>::of(m[i]), TensorBasis{{m[i].begin.data(), W, m[i].depth}}, m[i].lo, m[i].hi);
    };
    if (op == "fma") with_op(k, c, [&](auto f) { basic::ft_fma(view(0), view(1), view(2), f); });
    else if (op == "imul") with_op(k, c, [&](auto f) { basic::ft_inplace_mul(view(0), view(1), f); });
    else if (op == "anti") {
        basic::DefaultSigner s;
        basic::ft_antipode(view(0), view(1), basic::BasicAntipodeConfig{}, s);
    } else if (op == "rev") basic::ft_antipode(view(0), view(1), basic::BasicAntipodeConfig{}, NoSign{});
    else if (op == "adjl") basic::ft_adj_lmul(view(0), view(1), view(2));
    else if (op == "shuf") with_op(k, c, [&](auto f) { basic::v1::st_fma(view(0), view(1), view(2), f); });
    else if (op == "shuf2") with_op(k, c, [&](auto f) { basic::v2::st_fma(view(0), view(1), view(2), f); });
    else if (op == "adjs") basic::st_adj_mul(view(0), view(1), view(2));
    else if (op == "exp") intermediate::ft_exp(view(0), view(1));
    else if (op == "log") intermediate::ft_log(view(0), view(1));
    else if (op == "vadd") with_op(k, c, [&](auto f) { with_op(k2, c2, [&](auto g) {
        basic::vector_addition(view(0), view(1), view(2), f, g); }); });
    else if (op == "vinc") with_op(k, c, [&](auto f) { basic::vector_inplace_addition(view(0), view(1), f); });
    else if (op == "vims") basic::vector_inplace_scalar_multiply(view(0), c);
    else if constexpr (std::is_pointer_v<It>) {
        if (op == "vsm") {
            DenseTensorView<Q const*> in(m[1].data(), TensorBasis{{m[1].begin.data(), W, m[1].depth}}, m[1].lo, m[1].hi);
            basic::vector_scalar_multiply(view(0), in, c);
        } else if (op == "fmexp") intermediate::ft_fmexp(view(0), view(1), view(2));
        else std::_Exit(78);
    } else std::_Exit(78);
}

// the vector operations on Lie views
void call_lie(std::string const& op, int W, std::string const& k, Q c, std::string const& k2, Q c2, std::vector<Mem>& m)
{
    auto view = [&](int i) {
        return DenseLieView<Q*>(m[i].data(), LieBasis{{m[i].begin.data(), W, m[i].depth}, nullptr}, m[i].lo, m[i].hi);
    };
    if (op == "vadd") with_op(k, c, [&](auto f) { with_op(k2, c2, [&](auto g) {
        basic::vector_addition(view(0), view(1), view(2), f, g); }); });
    else if (op == "vinc") with_op(k, c, [&](auto f) { basic::vector_inplace_addition(view(0), view(1), f); });
    else if (op == "vims") basic::vector_inplace_scalar_multiply(view(0), c);
    else std::_Exit(78);
}

template <CompressedDim Dim>
void sparse(std::istream& in, std::string const& op, std::string const& k, Q c)
{
    long rows, cols, nnz;
    in >> rows >> cols >> nnz;
    long no = Dim == CompressedRow ? rows : cols, ni = Dim == CompressedRow ? cols : rows;
    std::vector<Q> data(nnz);
    std::vector<int32_t> idx(nnz);
    std::vector<int64_t> off(no + 1);
    for (auto& x : data) x = readq(in);
    for (auto& x : idx) in >> x;
    for (auto& x : off) in >> x;
    CompressedMatrix<Q const*, int64_t const*, int32_t const*, Dim> mat(data.data(), idx.data(), nnz, off.data(), no, ni);
    if (op == "mat") {
        std::cout << (mat.rows() == rows && mat.cols() == cols && mat.non_zeros() == nnz ? 1 : 0);
        for (long i = 0; i < rows; ++i) for (long j = 0; j < cols; ++j) std::cout << ' ' << str(mat.at(i, j));
        std::cout << std::endl;
        return;
    }
    std::vector<Q> out(rows + 2 * GUARD, SENT), arg(cols);
    for (long i = 0; i < rows; ++i) out[GUARD + i] = readq(in);
    for (auto& x : arg) x = readq(in);
    auto was = arg;
    with_op(k, c, [&](auto f) {
        basic::apply_sparse_linear_map(DenseVectorFragment<Q*>(out.data() + GUARD, rows), mat,
                                       DenseVectorFragment<Q const*>(arg.data(), cols), f);
    });
    bool ok = was == arg;
    for (int i = 0; i < GUARD; ++i) ok = ok && out[i] == SENT && out[GUARD + rows + i] == SENT;
    std::cout << ok;
    for (long i = 0; i < rows; ++i) std::cout << ' ' << str(out[GUARD + i]);
    std::cout << std::endl;
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op, k, k2, how;
        int W, nv;
        in >> op >> how >> W >> k;
        Q c = readq(in);
        in >> k2;
        Q c2 = readq(in);
        if (how == "csr") { sparse<CompressedRow>(in, op, k, c); continue; }
        if (how == "csc") { sparse<CompressedCol>(in, op, k, c); continue; }
        in >> nv;
        std::vector<Mem> m(nv);
        for (auto& x : m) x.read(in);
        if (how == "lie") call_lie(op, W, k, c, k2, c2, m);
        else if (how == "ptr") call<Q*>(op, W, k, c, k2, c2, m);
        else call<StridedDenseIterator<Q*>>(op, W, k, c, k2, c2, m);
        bool ok = true;
        for (int i = 0; i < nv; ++i) ok = ok && m[i].clean(i == 0);
        std::cout << ok;
        for (int i = 0; i < m[0].n; ++i) std::cout << ' ' << str(m[0].data()[i * m[0].stride]);
        std::cout << std::endl;
    }
}
