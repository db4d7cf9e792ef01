// Positions, vectors and orientation against Cartesian geometry.
#include <usml/types/wposition1.h>
#include <usml/types/wposition.h>
#include <usml/types/wvector1.h>
#include <usml/types/wvector.h>
#include <usml/types/orientation.h>
#include <usml/types/bvector.h>
#include <boost/numeric/ublas/vector.hpp>
#include <cmath>
using namespace usml::types;
typedef boost::numeric::ublas::vector<double> vec;
typedef boost::numeric::ublas::matrix<double> mat;
static const double PI = 3.14159265358979323846;
static const double D2R = PI / 180.0;
static volatile double sink;
struct P3 { double r, t, p, x, y, z; };
// a point with spherical coordinates; trigonometry starts from half angles
static P3 point(const char* n, double rmin, double rmax) {
    P3 q;
    char b[16]; int k = 0; while (n[k]) { b[k + 1] = n[k]; ++k; } b[k + 1] = 0;
    b[0] = 'r'; q.r = vp_real(b, rmin, rmax);
    b[0] = 't'; q.t = vp_real(b, 0.0, PI);
    b[0] = 'p'; q.p = vp_real(b, -PI, PI);
    sink = sin(0.5 * q.t); sink = sin(0.5 * q.p);
    q.x = q.r * sin(q.t) * cos(q.p); q.y = q.r * sin(q.t) * sin(q.p); q.z = q.r * cos(q.t);
    return q;
}
static double dotp(const P3& a, const P3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

static void accessors() {
    double R = vp_real("R", 6.3e6, 6.4e6);
    wposition::earth_radius = R;
    double lat = vp_real("lat", -90, 90), lng = vp_real("lng", -360, 360), alt = vp_real("alt", -11000, 10000);
    wposition1 a(lat, lng, alt);
    vp_eq(a.rho(), R + alt, "radius is earth radius plus altitude");
    vp_eq(a.theta(), (90 - lat) * D2R, "colatitude"); vp_eq(a.phi(), lng * D2R, "longitude in radians");
    vp_eq(a.altitude(), alt, "altitude"); vp_eq(a.latitude(), lat, "latitude"); vp_eq(a.longitude(), lng, "longitude");
    double la = vp_real("lat2", -90, 90), ln = vp_real("lng2", -360, 360), al = vp_real("alt2", -11000, 10000);
    wposition1 b;
    vp_eq(b.rho(), R, "default radius"); vp_eq(b.theta(), PI / 2, "default latitude"); vp_eq(b.phi(), 0, "default longitude");
    b = a; b.latitude(la); vp_eq(b.latitude(), la, "set latitude"); vp_eq(b.longitude(), lng, "set latitude"); vp_eq(b.altitude(), alt, "set latitude");
    b.longitude(ln); vp_eq(b.latitude(), la, "set longitude"); vp_eq(b.longitude(), ln, "set longitude"); vp_eq(b.altitude(), alt, "set longitude");
    b.altitude(al); vp_eq(b.latitude(), la, "set altitude"); vp_eq(b.longitude(), ln, "set altitude"); vp_eq(b.altitude(), al, "set altitude");
    vp_eq(a.latitude(), lat, "copy is independent");
    wvector1 v(a); wposition1 c(v);
    vp_eq(c.rho(), a.rho(), "copy"); vp_eq(c.theta(), a.theta(), "copy"); vp_eq(c.phi(), a.phi(), "copy");
    wposition d(a);
    vp_assert(d.size1() == 1 && d.size2() == 1, "array of one point");
    vp_eq(d.latitude(0, 0), lat, "array of one point"); vp_eq(d.longitude(0, 0), lng, "array of one point"); vp_eq(d.altitude(0, 0), alt, "array of one point");
    double l0 = vp_real("lat0", -90, 90);
    wposition::compute_earth_radius(l0);
    const double A = 6378137.0, f = 1.0 / 298.257223563, e2 = f * (2.0 - f), sn = sin(l0 * D2R), w = sqrt(1.0 - e2 * sn * sn);
    vp_eq(wposition::earth_radius, sqrt((A * (1 - e2) / (w * w * w)) * (A / w)), "local radius of curvature");
    wposition::earth_radius = 6371000.0;
}
static void arrays() {
    double R = vp_real("R", 6.3e6, 6.4e6);
    wposition::earth_radius = R;
    const size_t N = 2, M = 3;
    vec la(N), ln(M);
    for (size_t n = 0; n < N; ++n) la(n) = vp_real("lat", -90, 90);
    for (size_t m = 0; m < M; ++m) ln(m) = vp_real("lng", -180, 180);
    double alt = vp_real("alt", -11000, 10000);
    wposition a(la, ln, alt);
    vp_assert(a.size1() == N && a.size2() == M, "array size");
    mat LA = a.latitude(), LN = a.longitude(), AL = a.altitude();
    size_t i = (size_t)vp_choice("row", 0, N - 1), j = (size_t)vp_choice("col", 0, M - 1);
    wposition1 one(a, i, j);
    wvector1 onev(a, i, j);
    vp_eq(one.latitude(), la(i), "selected element"); vp_eq(one.longitude(), ln(j), "selected element"); vp_eq(one.altitude(), alt, "selected element");
    vp_eq(onev.rho(), R + alt, "selected element"); vp_eq(onev.theta(), a.theta(i, j), "selected element"); vp_eq(onev.phi(), a.phi(i, j), "selected element");
    double x = vp_real("x", -90, 90), y = vp_real("y", -180, 180), z = vp_real("z", -11000, 10000);
    wposition b(a), u(N, M, x, y, z);
    b.latitude(i, j, x); b.longitude(i, j, y); b.altitude(i, j, z);
    for (size_t n = 0; n < N; ++n) for (size_t m = 0; m < M; ++m) {
        bool h = n == i && m == j;
        vp_eq(LA(n, m), la(n), "array latitude"); vp_eq(LN(n, m), ln(m), "array longitude"); vp_eq(AL(n, m), alt, "array altitude");
        vp_eq(a.theta(n, m), (90 - la(n)) * D2R, "array colatitude"); vp_eq(a.phi(n, m), ln(m) * D2R, "array phi"); vp_eq(a.rho(n, m), R + alt, "array radius");
        vp_eq(b.latitude(n, m), h ? x : la(n), "element update"); vp_eq(b.longitude(n, m), h ? y : ln(m), "element update"); vp_eq(b.altitude(n, m), h ? z : alt, "element update");
        vp_eq(u.latitude(n, m), x, "uniform array"); vp_eq(u.longitude(n, m), y, "uniform array"); vp_eq(u.altitude(n, m), z, "uniform array");
    }
    mat A2(N, M), A3(N, M), A4(N, M);
    for (size_t n = 0; n < N; ++n) for (size_t m = 0; m < M; ++m) { A2(n, m) = vp_real("A2", -90, 90); A3(n, m) = vp_real("A3", -180, 180); A4(n, m) = vp_real("A4", -1e4, 1e4); }
    bool na = vp_choice("noalias", 0, 1);
    b.latitude(A2, na); b.longitude(A3, na); b.altitude(A4, na);
    for (size_t n = 0; n < N; ++n) for (size_t m = 0; m < M; ++m) {
        vp_eq(b.latitude(n, m), A2(n, m), "array update"); vp_eq(b.longitude(n, m), A3(n, m), "array update"); vp_eq(b.altitude(n, m), A4(n, m), "array update");
        vp_eq(b.theta(n, m), (90 - A2(n, m)) * D2R, "array update"); vp_eq(b.phi(n, m), A3(n, m) * D2R, "array update"); vp_eq(b.rho(n, m), R + A4(n, m), "array update");
    }
    wposition::earth_radius = 6371000.0;
}
static void products() {
    P3 a = point("a", 6.2e6, 6.4e6), b = point("b", 6.2e6, 6.4e6), c = point("c", 6.2e6, 6.4e6);
    wvector1 va(a.r, a.t, a.p), vb(b.r, b.t, b.p);
    double ab = dotp(a, b);
    vp_eq_scale(va.dot(vb), ab, 4e13, "dot product");
    vp_eq_scale(vb.dot(va), ab, 4e13, "dot product is symmetric");
    vp_eq(va.dotnorm(vb), ab / (a.r * b.r), "cosine of the angle between");
    double d2 = a.r * a.r + b.r * b.r - 2 * ab;
    vp_assume(d2 > 1);
    vp_eq_scale(va.distance2(vb), d2, 4e10, "square of the distance");
    double d = va.distance(vb);
    vp_eq_scale(d * d, d2, 4e10, "distance");
    vp_assert(d >= 0, "distance not negative");
    wvector v(1, 2);
    v.rho(0, 0, a.r); v.theta(0, 0, a.t); v.phi(0, 0, a.p);
    v.rho(0, 1, c.r); v.theta(0, 1, c.t); v.phi(0, 1, c.p);
    mat m(1, 2);
    double cb = dotp(c, b), e2 = c.r * c.r + b.r * b.r - 2 * cb;
    vp_assume(e2 > 1);
    v.dot(vb, m);
    vp_eq_scale(m(0, 0), ab, 4e13, "array dot product"); vp_eq_scale(m(0, 1), cb, 4e13, "array dot product");
    v.dotnorm(vb, m);
    vp_eq(m(0, 0), ab / (a.r * b.r), "array cosine"); vp_eq(m(0, 1), cb / (c.r * b.r), "array cosine");
    v.distance2(vb, m);
    vp_eq_scale(m(0, 0), d2, 4e10, "array square of distance"); vp_eq_scale(m(0, 1), e2, 4e10, "array square of distance");
    v.distance(vb, m);
    vp_eq_scale(m(0, 0) * m(0, 0), d2, 4e10, "array distance"); vp_eq_scale(m(0, 1) * m(0, 1), e2, 4e10, "array distance");
}
static double heron(double a, double b, double c) { return 0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c)); }
static void areas() {
    wvector1 p(vp_real("r0", 1, 2), vp_real("t0", 0.1, 3), vp_real("p0", -3, 3)), q(vp_real("r1", 1, 2), vp_real("t1", 0.1, 3), vp_real("p1", -3, 3)),
        s(vp_real("r2", 1, 2), vp_real("t2", 0.1, 3), vp_real("p2", -3, 3)), u(vp_real("r3", 1, 2), vp_real("t3", 0.1, 3), vp_real("p3", -3, 3));
    double pq = p.distance(q), ps = p.distance(s), qs = q.distance(s), pu = p.distance(u), us = u.distance(s);
    // the distances of real points obey the triangle inequality
    vp_assume(pq + ps >= qs); vp_assume(pq + qs >= ps); vp_assume(ps + qs >= pq);
    vp_assume(ps + pu >= us); vp_assume(ps + us >= pu); vp_assume(pu + us >= ps);
    double A = heron(pq, ps, qs), B = heron(pu, ps, us);
    vp_eq(p.area(q, s), A, "area of a triangle");
    vp_eq(p.area(q, s, u), A + B, "area of a quadrilateral");
    vp_le(0, A, "area not negative");
}
static void great_circle() {
    double lat1 = vp_real("lat1", -89.999, 89.999), lat2 = vp_real("lat2", -89.999, 89.999), lng1 = vp_real("lng1", -180, 180), lng2 = vp_real("lng2", -180, 180);
    double alt = vp_real("alt", -5000, 5000), alt2 = vp_real("alt2", -5000, 5000);
    double a1 = lat1 * D2R, a2 = lat2 * D2R, g1 = lng1 * D2R, g2 = lng2 * D2R;
    sink = sin(0.5 * a1); sink = sin(0.5 * a2); sink = sin(0.5 * g1); sink = sin(0.5 * g2);
    double c1 = cos(a1), s1 = sin(a1), c2 = cos(a2), s2 = sin(a2), cd = cos(g2) * cos(g1) + sin(g2) * sin(g1), sd = sin(g2) * cos(g1) - cos(g2) * sin(g1);
    double cr = s1 * s2 + c1 * c2 * cd, X = c1 * s2 - s1 * c2 * cd, Y = sd * c2;
    vp_assume(cr < 0.999999 && cr > -0.999999);
    vp_assume(c1 > 1e-6);
    vp_domain(0);
    int where = (int)vp_choice("where", 0, 2);
    if (where == 1) vp_assume(a1 >= 1e-10); else if (where == 2) vp_assume(a1 <= -1e-10); else { vp_assume(a1 < 1e-10); vp_assume(a1 > -1e-10); }
    wposition1 a(lat1, lng1, alt), b(lat2, lng2, alt2);
    double R = wposition::earth_radius + alt, brg = -1;
    vp_assume(X * X + Y * Y > 1e-12);
    double rng2 = a.gc_range(b);
    vp_assume(rng2 / R >= 1e-6);
    double rng = a.gc_range(b, &brg);
    vp_eq(rng, rng2, "range with and without bearing");
    double r = rng / R;
    vp_assert(r >= 0 && r <= PI + 1e-9, "range is an angle times the radius");
    vp_eq(cos(r), cr, "great circle range");
    double S = sqrt(X * X + Y * Y);
    if (where == 0) {
        vp_eq(sin(brg) * S, Y, "bearing from a point on the equator"); vp_eq(cos(brg) * S, X, "bearing from a point on the equator");
    } else {
        vp_eq(sin(brg) * S, Y, "great circle bearing"); vp_eq(cos(brg) * S, X, "great circle bearing");
    }
    vp_assert(brg >= 0 && brg <= 2 * PI, "bearing between north and north");
}
static void poles() {
    double lat2 = vp_real("lat2", -80, 80), lng2 = vp_real("lng2", -180, 180);
    double brg = -1;
    wposition1 n(90, 0, 0), s(-90, 0, 0), b(lat2, lng2, 0);
    sink = sin(0.5 * lat2 * D2R); sink = sin(0.5 * lng2 * D2R);
    vp_domain(0);
    double r = n.gc_range(b, &brg);
    vp_eq(cos(r / wposition::earth_radius), sin(lat2 * D2R), "range from the north pole");
    r = s.gc_range(b, &brg);
    vp_eq(cos(r / wposition::earth_radius), -sin(lat2 * D2R), "range from the south pole");
}
static void end_point() {
    double lat = vp_real("lat", -89, 89), lng = vp_real("lng", -180, 180), alt = vp_real("alt", -5000, 5000);
    double rg = vp_real("range", 0, 1e7), b = vp_real("bearing", -7, 7);
    double R = wposition::earth_radius + alt, r = rg / R;
    double s1 = sin(lat * D2R), c1 = cos(lat * D2R);
    vp_assume(c1 > 0);
    wposition1 a(lat, lng, alt);
    vp_domain(0);
    double s2 = s1 * cos(r) + c1 * sin(r) * cos(b);
    double x = c1 * (cos(r) - s1 * s2), y = sin(b) * sin(r) * c1 * c1;
    vp_assume(s2 > -0.9999 && s2 < 0.9999);
    wposition1 e(a, rg, b);
    vp_eq(e.altitude(), alt, "end point altitude");
    vp_eq(sin(e.latitude() * D2R), s2, "end point latitude");
    double dl = (e.longitude() - lng) * D2R;
    vp_assert(e.latitude() >= -90.0001 && e.latitude() <= 90.0001, "latitude in range");
    vp_eq(sin(dl) * x, cos(dl) * y, "end point longitude");
    double X = cos(r) - s1 * s2, Y = sin(b) * sin(r) * c1;
    vp_eq(cos(dl) * X + sin(dl) * Y, sqrt(X * X + Y * Y), "end point longitude quadrant");
}
static void angles() {
    double r = vp_real("r", -2, 2), t = vp_real("t", -2, 2), p = vp_real("p", -2, 2);
    double h2 = t * t + p * p, L = sqrt(r * r + h2), H = sqrt(h2);
    vp_assume(h2 > 1e-6);
    wvector1 v(r, t, p);
    double de = 999, az = 999;
    v.direction(&de, &az);
    vp_eq(sin(de * D2R) * L, r, "elevation angle"); vp_eq(cos(de * D2R) * L, H, "elevation angle");
    vp_eq(sin(az * D2R) * H, p, "azimuth angle"); vp_eq(cos(az * D2R) * H, -t, "azimuth angle");
    vp_assert(de > -90.0001 && de < 90.0001, "elevation in range");
    vp_assert(az > -180.0001 && az < 180.0001, "azimuth in range");
}
static void local_to_earth() {
    P3 a = point("a", 6.2e6, 6.4e6);
    double r = vp_real("r", -2, 2), t = vp_real("t", -2, 2), p = vp_real("p", -2, 2);
    double st = sin(a.t), ct = cos(a.t), sp = sin(a.p), cp = cos(a.p);
    double x = r * st * cp + t * ct * cp - p * sp, y = r * st * sp + t * ct * sp + p * cp, z = r * ct - t * st;
    vp_assume(x * x + y * y > 1e-4);
    wvector1 pos(a.r, a.t, a.p), v(r, t, p), d(9, 9, 9);
    v.direction(pos, &d);
    double L2 = r * r + t * t + p * p;
    vp_eq(d.rho(), 1, "earth direction is a unit vector");
    double H = sqrt(x * x + y * y), L = sqrt(H * H + z * z);
    vp_eq(L * L, L2, "length kept");
    vp_eq(sin(d.theta()) * L, H, "earth direction colatitude"); vp_eq(cos(d.theta()) * L, z, "earth direction colatitude");
    vp_eq(cos(d.phi()) * H, x, "earth direction longitude"); vp_eq(sin(d.phi()) * H, y, "earth direction longitude");
}
static void earth_to_local() {
    P3 a = point("a", 1, 2), b = point("b", 1, 2);
    double st = sin(a.t), ct = cos(a.t), sp = sin(a.p), cp = cos(a.p);
    double x = b.x - a.x, y = b.y - a.y, z = b.z - a.z;
    double u = x * st * cp + y * st * sp + z * ct, s = x * ct * cp + y * ct * sp - z * st, e = -x * sp + y * cp;
    vp_assume(u * u + s * s + e * e > 1e-4);
    wvector1 pos(a.r, a.t, a.p), dst(b.r, b.t, b.p), v(9, 9, 9);
    double L = v.direction(pos, dst);
    vp_eq(L * L, x * x + y * y + z * z, "length of the displacement");
    vp_eq(v.rho() * L, u, "local up component"); vp_eq(v.theta() * L, s, "local south component"); vp_eq(v.phi() * L, e, "local east component");
    vp_eq(v.rho() * v.rho() + v.theta() * v.theta() + v.phi() * v.phi(), 1, "local direction is a unit vector");
}
static void orient(int sub) {
    double yaw = vp_real("yaw", -180, 180), pitch = vp_real("pitch", -89, 89), roll = vp_real("roll", -180, 180);
    double cy = cos(yaw * D2R), sy = sin(yaw * D2R), cp = cos(pitch * D2R), sp = sin(pitch * D2R), cr = cos(roll * D2R), sr = sin(roll * D2R);
    // columns: front, right, up in the north, east, up frame
    double F[3] = {cy * cp, sy * cp, sp};
    double Rt[3] = {-sy * cr + cy * sp * sr, cy * cr + sy * sp * sr, -cp * sr};
    double U[3] = {-sy * sr - cy * sp * cr, cy * sr - sy * sp * cr, cp * cr};
    orientation o(yaw, pitch, roll);
    if (sub == 0) {
        vp_eq(o.yaw(), yaw, "yaw as given"); vp_eq(o.pitch(), pitch, "pitch as given"); vp_eq(o.roll(), roll, "roll as given");
        vec f = o.front(), r = o.right(), u = o.up();
        mat m = o.rotation();
        for (int i = 0; i < 3; ++i) {
            vp_eq(f(i), F[i], "front of the body"); vp_eq(r(i), Rt[i], "right side of the body"); vp_eq(u(i), U[i], "top of the body");
            vp_eq(m(i, 0), F[i], "rotation matrix"); vp_eq(m(i, 1), Rt[i], "rotation matrix"); vp_eq(m(i, 2), U[i], "rotation matrix");
        }
        // lengths and angles preserved both ways
        double a = vp_real("a", -9, 9), b = vp_real("b", -9, 9), c = vp_real("c", -9, 9);
        bvector in(a, b, c), out;
        out.rotate(o, in);
        vp_eq(out.front(), a * F[0] + b * Rt[0] + c * U[0], "body vector in the world frame");
        vp_eq(out.right(), a * F[1] + b * Rt[1] + c * U[1], "body vector in the world frame");
        vp_eq(out.up(), a * F[2] + b * Rt[2] + c * U[2], "body vector in the world frame");
        vp_eq(out.front() * out.front() + out.right() * out.right() + out.up() * out.up(), a * a + b * b + c * c, "length preserved");
        mat w(3, 2);
        w(0, 0) = out.front(); w(1, 0) = out.right(); w(2, 0) = out.up();
        w(0, 1) = a; w(1, 1) = b; w(2, 1) = c;
        o.rotate_vector(w);
        vp_eq(w(0, 0), a, "world to body undoes body to world"); vp_eq(w(1, 0), b, "world to body undoes body to world"); vp_eq(w(2, 0), c, "world to body undoes body to world");
        vp_eq(w(0, 1), a * F[0] + b * F[1] + c * F[2], "world vector in the body frame");
        vp_eq(w(1, 1), a * Rt[0] + b * Rt[1] + c * Rt[2], "world vector in the body frame");
        vp_eq(w(2, 1), a * U[0] + b * U[1] + c * U[2], "world vector in the body frame");
        vec dv = in.data();
        vp_eq(dv(0), a, "vector data"); vp_eq(dv(1), b, "vector data"); vp_eq(dv(2), c, "vector data");
        bvector cpy(in); cpy.front(b); cpy.up(a); vp_eq(in.front(), a, "copy is independent"); vp_eq(cpy.front(), b, "set front"); vp_eq(cpy.up(), a, "set up"); vp_eq(cpy.right(), b, "right kept");
        orientation id;
        out.rotate(id, in);
        vp_eq(out.front(), a, "identity orientation"); vp_eq(out.right(), b, "identity orientation"); vp_eq(out.up(), c, "identity orientation");
        vp_eq(id.yaw(), 0, "identity angles"); vp_eq(id.pitch(), 0, "identity angles"); vp_eq(id.roll(), 0, "identity angles");
        // direction given as angles
        bvector dir(pitch, yaw);
        vp_eq(dir.front(), cp * cy, "direction from angles"); vp_eq(dir.right(), cp * sy, "direction from angles"); vp_eq(dir.up(), sp, "direction from angles");
        // host and child
        double y2 = vp_real("yaw2", -180, 180), p2 = vp_real("pitch2", -89, 89), r2 = vp_real("roll2", -180, 180);
        orientation child(y2, p2, r2), sum;
        sum.rotate(o, child);
        mat mc = child.rotation(), ms = sum.rotation();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            vp_eq(ms(i, j), F[i] * mc(0, j) + Rt[i] * mc(1, j) + U[i] * mc(2, j), "child orientation on a host");
    } else if (sub == 1) {
        // angles recovered from the rotation matrix
        vp_assume(cp > 1e-3);
        orientation c(o), m(o.rotation()), s;
        s = o;
        orientation* q[3] = {&c, &m, &s};
        orientation& x = *q[vp_choice("how", 0, 2)];
        vp_eq(sin(x.pitch() * D2R), sp, "pitch recovered"); vp_eq(cos(x.pitch() * D2R), cp, "pitch recovered");
        vp_eq(sin(x.yaw() * D2R) * cp, sy * cp, "yaw recovered"); vp_eq(cos(x.yaw() * D2R) * cp, cy * cp, "yaw recovered");
        vp_eq(sin(x.roll() * D2R) * cp, sr * cp, "roll recovered"); vp_eq(cos(x.roll() * D2R) * cp, cr * cp, "roll recovered");
        vec f = x.front();
        for (int i = 0; i < 3; ++i) vp_eq(f(i), F[i], "copied orientation");
    } else {
        // changing one angle keeps the other two, also on a copy
        vp_assume(cp > 1e-3);
        orientation x;
        bool copied = vp_choice("copied", 0, 1);
        x = o;
        orientation& t = copied ? x : o;
        double a = vp_real("a", -89, 89), ca = cos(a * D2R), sa = sin(a * D2R);
        int w = (int)vp_choice("which", 0, 2);
        if (w == 0) { t.yaw(a); cy = ca; sy = sa; vp_eq(t.yaw(), a, "angle as set"); }
        else if (w == 1) { t.pitch(a); cp = ca; sp = sa; vp_eq(t.pitch(), a, "angle as set"); }
        else { t.roll(a); cr = ca; sr = sa; vp_eq(t.roll(), a, "angle as set"); }
        double G[3] = {cy * cp, sy * cp, sp}, H[3] = {-sy * cr + cy * sp * sr, cy * cr + sy * sp * sr, -cp * sr};
        vec f = t.front(), r = t.right();
        for (int i = 0; i < 3; ++i) { vp_eq(f(i), G[i], "front after setting one angle"); vp_eq(r(i), H[i], "right after setting one angle"); }
    }
}
extern "C" void h_main() {
    switch (vp_param("kind", 0)) {
    case 0: accessors(); break;
    case 1: arrays(); break;
    case 2: products(); break;
    case 3: areas(); break;
    case 4: great_circle(); break;
    case 5: poles(); break;
    case 6: end_point(); break;
    case 7: angles(); break;
    case 8: local_to_earth(); break;
    case 9: earth_to_local(); break;
    default: orient((int)vp_param("kind", 0) - 10);
    }
}
