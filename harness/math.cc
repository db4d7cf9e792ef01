// Element by element vector and matrix math.
#include <usml/ublas/ublas.h>
#include <cmath>
#include <complex>
using namespace usml::ublas;
typedef boost::numeric::ublas::vector<double> vec;
typedef boost::numeric::ublas::matrix<double> mat;
typedef std::complex<double> cplx;
typedef boost::numeric::ublas::vector<cplx> cvec;
typedef boost::numeric::ublas::matrix<cplx> cmat;
static const double PI = 3.14159265358979323846;
static vec x, y; static mat X, Y;
static cvec z, w; static cmat Z, W;
static double s;

static void same(const vec& r, const vec& e, const mat& R, const mat& E, const char* text) {
    vp_assert(r.size() == e.size() && R.size1() == E.size1() && R.size2() == E.size2(), "shape preserved");
    for (size_t i = 0; i < e.size(); ++i) vp_eq_scale(r(i), e(i), 1, text);
    for (size_t i = 0; i < E.size1(); ++i) for (size_t j = 0; j < E.size2(); ++j) vp_eq_scale(R(i, j), E(i, j), 1, text);
}
static void csame(const cvec& r, const cvec& e, const cmat& R, const cmat& E, const char* text) {
    vp_assert(r.size() == e.size() && R.size1() == E.size1() && R.size2() == E.size2(), "shape preserved");
    for (size_t i = 0; i < e.size(); ++i) { vp_eq_scale(r(i).real(), e(i).real(), 1, text); vp_eq_scale(r(i).imag(), e(i).imag(), 1, text); }
    for (size_t i = 0; i < E.size1(); ++i) for (size_t j = 0; j < E.size2(); ++j) {
        vp_eq_scale(R(i, j).real(), E(i, j).real(), 1, text); vp_eq_scale(R(i, j).imag(), E(i, j).imag(), 1, text); }
}
#define T1(expr, ref, text) { \
    vec e(x.size()); mat E(X.size1(), X.size2()); vec r; mat R; \
    for (size_t i = 0; i < x.size(); ++i) { double t = x(i), u = y(i); (void)t; (void)u; e(i) = ref; } \
    for (size_t i = 0; i < X.size1(); ++i) for (size_t j = 0; j < X.size2(); ++j) { double t = X(i, j), u = Y(i, j); (void)t; (void)u; E(i, j) = ref; } \
    { vec &a = x, &b = y; (void)a; (void)b; r = expr; } { mat &a = X, &b = Y; (void)a; (void)b; R = expr; } same(r, e, R, E, text); }
#define C1(expr, ref, text) { \
    cvec e(z.size()); cmat E(Z.size1(), Z.size2()); cvec r; cmat R; \
    for (size_t i = 0; i < z.size(); ++i) { cplx t = z(i), u = w(i); (void)t; (void)u; e(i) = ref; } \
    for (size_t i = 0; i < Z.size1(); ++i) for (size_t j = 0; j < Z.size2(); ++j) { cplx t = Z(i, j), u = W(i, j); (void)t; (void)u; E(i, j) = ref; } \
    { cvec &a = z, &b = w; (void)a; (void)b; r = expr; } { cmat &a = Z, &b = W; (void)a; (void)b; R = expr; } csame(r, e, R, E, text); }
// real result of complex elements
#define CR(expr, ref, text) { \
    vec e(z.size()); mat E(Z.size1(), Z.size2()); vec r; mat R; \
    for (size_t i = 0; i < z.size(); ++i) { cplx t = z(i); e(i) = ref; } \
    for (size_t i = 0; i < Z.size1(); ++i) for (size_t j = 0; j < Z.size2(); ++j) { cplx t = Z(i, j); E(i, j) = ref; } \
    { cvec &a = z; r = expr; } { cmat &a = Z; R = expr; } same(r, e, R, E, text); }

static void reals(double lo, double hi, double lo2, double hi2) {
    size_t n = (size_t)vp_param("n", 2), n1 = (size_t)vp_param("n1", 2), n2 = (size_t)vp_param("n2", 1);
    x.resize(n); y.resize(n); X.resize(n1, n2); Y.resize(n1, n2);
    for (size_t i = 0; i < n; ++i) { x(i) = vp_real("x", lo, hi); y(i) = vp_real("y", lo2, hi2); }
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) { X(i, j) = vp_real("X", lo, hi); Y(i, j) = vp_real("Y", lo2, hi2); }
    s = vp_real("s", lo2, hi2);
}
static void complexes() {
    z.resize(2); w.resize(2); Z.resize(1, 2); W.resize(1, 2);
    for (size_t i = 0; i < 2; ++i) {
        z(i) = cplx(vp_real("zr", -5, 5), vp_real("zi", -5, 5)); w(i) = cplx(vp_real("wr", 0.1, 5), vp_real("wi", -5, 5));
        Z(0, i) = cplx(vp_real("Zr", -5, 5), vp_real("Zi", -5, 5)); W(0, i) = cplx(vp_real("Wr", 0.1, 5), vp_real("Wi", -5, 5));
    }
    s = vp_real("s", 0.1, 5);
}
void h_main() {
    int kind = (int)vp_param("kind", 0);
    if (kind == 0) {            // arithmetic and conversions
        reals(-1e3, 1e3, 0.1, 1e3);
        T1(a + s, t + s, "vector plus scalar"); T1(s + a, s + t, "scalar plus vector");
        T1(a - s, t - s, "vector minus scalar"); T1(s - a, s - t, "scalar minus vector");
        T1(s / b, s / u, "scalar over vector"); T1(a * b, t * u, "product of elements"); T1(a / b, t / u, "quotient of elements");
        T1(to_degrees(a), t * 180 / PI, "radians to degrees"); T1(to_radians(a), t * PI / 180, "degrees to radians");
        T1(to_latitude(a), 90 - t * 180 / PI, "colatitude to latitude"); T1(to_colatitude(a), (90 - t) * PI / 180, "latitude to colatitude");
        T1(abs2(a), t * t, "magnitude squared"); T1(arg(a + 2e3), 0.0, "argument of positive numbers");
        T1(to_degrees(to_radians(a)), t, "angles convert back"); T1(to_latitude(to_colatitude(a)), t, "latitudes convert back");
    } else if (kind == 1) {     // limits and signs
        reals(-20, 20, -20, 20);
        int f = (int)vp_choice("f", 0, 5);
        if (f == 0) { T1(max(a, s), t > s ? t : s, "maximum"); }
        else if (f == 1) { T1(min(a, s), t < s ? t : s, "minimum"); }
        else if (f == 2) { T1(abs(a), t < 0 ? -t : t, "magnitude"); }
        else if (f == 3) {
            for (size_t i = 0; i < y.size(); ++i) vp_assume(y(i) > 1e-3 || y(i) < -1e-3);
            for (size_t i = 0; i < Y.size1(); ++i) for (size_t j = 0; j < Y.size2(); ++j) vp_assume(Y(i, j) > 1e-3 || Y(i, j) < -1e-3);
            T1(copysign(a, b), (u < 0) == (t < 0) ? t : -t, "magnitude of the first, sign of the second");
        } else {
            // floor and ceil: whole numbers next to the element
            vec r = f == 4 ? vec(floor(x)) : vec(ceil(x)); mat R = f == 4 ? mat(floor(X)) : mat(ceil(X));
            vp_assert(r.size() == x.size() && R.size1() == X.size1() && R.size2() == X.size2(), "shape preserved");
            for (size_t i = 0; i < x.size(); ++i) {
                if (f == 4) vp_assert(r(i) <= x(i) && x(i) < r(i) + 1, "floor"); else vp_assert(r(i) >= x(i) && x(i) > r(i) - 1, "ceiling");
            }
            for (size_t i = 0; i < X.size1(); ++i) for (size_t j = 0; j < X.size2(); ++j) {
                if (f == 4) vp_assert(R(i, j) <= X(i, j) && X(i, j) < R(i, j) + 1, "floor"); else vp_assert(R(i, j) >= X(i, j) && X(i, j) > R(i, j) - 1, "ceiling");
            }
        }
    } else if (kind == 2) {     // trigonometry
        reals(-1.5, 1.5, -3, 3);
        T1(sin(a), std::sin(t), "sine"); T1(cos(a), std::cos(t), "cosine"); T1(tan(a), std::tan(t), "tangent");
        T1(atan(a), std::atan(t), "inverse tangent"); T1(atan2(a, b + 4.0), std::atan2(t, u + 4.0), "inverse tangent of two vectors");
        T1(signal(a), std::sin(t), "signal of a phase");
        cvec r = asignal(x); cmat R = asignal(X);
        vp_assert(r.size() == x.size() && R.size1() == X.size1() && R.size2() == X.size2(), "shape preserved");
        for (size_t i = 0; i < x.size(); ++i) {
            vp_eq_scale(r(i).real(), std::sin(x(i)), 1, "real part of the analytic signal"); vp_eq_scale(std::norm(r(i)), 1.0, 1, "analytic signal of unit level"); }
        for (size_t i = 0; i < X.size1(); ++i) for (size_t j = 0; j < X.size2(); ++j) {
            vp_eq_scale(R(i, j).real(), std::sin(X(i, j)), 1, "real part of the analytic signal"); vp_eq_scale(std::norm(R(i, j)), 1.0, 1, "analytic signal of unit level"); }
    } else if (kind == 3) {     // inverse trigonometry, square root
        reals(-0.99, 0.99, 0.1, 3);
        T1(asin(a), std::asin(t), "inverse sine"); T1(acos(a), std::acos(t), "inverse cosine");
        T1(sqrt(b), std::sqrt(u), "square root");
    } else if (kind == 4) {     // exponentials
        reals(-3, 3, 0.2, 3);
        T1(exp(a), std::exp(t), "exponential"); T1(log(b), std::log(u), "logarithm"); T1(log10(b), std::log10(u), "decimal logarithm");
        T1(pow(b, 2.0), u * u, "square"); T1(pow(b, s), std::pow(u, s), "power of vector and scalar");
        T1(pow(s, a), std::pow(s, t), "power of scalar and vector"); T1(pow(b, a), std::pow(u, t), "power of elements");
    } else if (kind == 5) {     // hyperbolic functions
        reals(-2, 2, -0.9, 0.9);
        T1(sinh(a), std::sinh(t), "hyperbolic sine"); T1(cosh(a), std::cosh(t), "hyperbolic cosine"); T1(tanh(a), std::tanh(t), "hyperbolic tangent");
        T1(exp(asinh(a)), t + std::sqrt(t * t + 1), "inverse hyperbolic sine");
        T1(exp(acosh(b + 2.0)), u + 2 + std::sqrt((u + 2) * (u + 2) - 1), "inverse hyperbolic cosine");
        T1(exp(2.0 * atanh(b)), (1 + u) / (1 - u), "inverse hyperbolic tangent");
    } else if (kind == 6) {     // complex elements
        complexes();
        C1(a + s, t + s, "complex vector plus scalar"); C1(a - s, t - s, "complex vector minus scalar");
        C1(s + a, s + t, "scalar plus complex vector"); C1(s - a, s - t, "scalar minus complex vector");
        C1(a * b, cplx(t.real() * u.real() - t.imag() * u.imag(), t.real() * u.imag() + t.imag() * u.real()), "product of complex elements");
        C1(a / b, t / u, "quotient of complex elements");
        CR(abs2(a), t.real() * t.real() + t.imag() * t.imag(), "squared magnitude of complex elements");
        CR(abs(a), std::sqrt(t.real() * t.real() + t.imag() * t.imag()), "magnitude of complex elements");
        CR(arg(a), std::atan2(t.imag(), t.real()), "argument of complex elements");
    } else {                    // complex functions
        complexes();
        C1(exp(a), std::exp(t.real()) * cplx(std::cos(t.imag()), std::sin(t.imag())), "complex exponential");
    }
}
