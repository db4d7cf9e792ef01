// Eigenverbs and biverbs.
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types; using namespace usml::eigenverbs; using namespace usml::biverbs;
typedef boost::numeric::ublas::vector<double> vec;
static const double PI = 3.14159265358979323846;
static seq_vector::csptr freqs(size_t n) { double f[2] = {100.0, 250.0}; return seq_vector::csptr(new seq_data(f, n)); }
static eigenverb_model* verb(int tag, size_t nf) {
    eigenverb_model* v = new eigenverb_model(); v->frequencies = freqs(nf); v->power.resize(nf);
    v->de_index = 100 + tag; v->az_index = 200 + tag; v->surface = 300 + tag; v->bottom = 400 + tag; v->caustic = 500 + tag; v->upper = 600 + tag; v->lower = 700 + tag;
    v->travel_time = v->length = v->width = v->direction = v->grazing = v->source_de = v->source_az = 0; v->sound_speed = 1500; return v;
}
// ---- the overlap of two Gaussian patches
static void overlap() {
    int same = (int)vp_param("same", 0); const size_t nf = (size_t)vp_param("nf", 1);
    eigenverb_model *s = verb(1, nf), *r = verb(2, nf); eigenverb_model::csptr hs(s), hr(r); vec sc(nf);
    s->travel_time = vp_real("source time", 0.1, 100); r->travel_time = vp_real("receiver time", 0.1, 100);
    s->source_de = vp_real("source de", -1.5, 1.5); s->source_az = vp_real("source az", -3, 3); r->source_de = vp_real("receiver de", -1.5, 1.5); r->source_az = vp_real("receiver az", -3, 3);
    s->sound_speed = vp_real("c source", 1400, 1600); r->sound_speed = vp_real("c receiver", 1400, 1600); s->grazing = vp_real("grazing source", 0.01, 1.5); r->grazing = vp_real("grazing receiver", 0.01, 1.5);
    for (size_t i = 0; i < nf; ++i) { s->power(i) = vp_real("source power", 1e-6, 1); r->power(i) = vp_real("receiver power", 1e-6, 1); sc(i) = vp_real("scattering", 1e-5, 1); }
    double sl = s->length = vp_real("source length", 10, 1000), sw = s->width = vp_real("source width", 10, 1000), rl = r->length = vp_real("receiver length", 10, 1000), rw = r->width = vp_real("receiver width", 10, 1000);
    double a = vp_real("tilt", -1.5, 1.5); r->direction = vp_real("direction", -3, 3); s->direction = r->direction + a;
    double lat = 20, lng = 30; r->position = wposition1(lat, lng, -100); double range = 0, bearing = 0;
    if (same) s->position = r->position;
    else { s->position = wposition1(lat + vp_real("dlat", -0.02, 0.02), lng + vp_real("dlng", -0.02, 0.02), -100); range = r->position.gc_range(s->position, &bearing); vp_assume(range > 1); }
    double rel = bearing - r->direction, x = range * sin(rel), y = range * cos(rel);
    double sa = sin(a), ca = cos(a), xx = sl * sl * sa * sa + sw * sw * ca * ca + rw * rw, yy = sl * sl * ca * ca + sw * sw * sa * sa + rl * rl, xy = (sl * sl - sw * sw) * sa * ca, det = xx * yy - xy * xy;
    double expo = -0.5 * (yy * x * x - 2 * xy * x * y + xx * y * y) / det, peak = 0; vec p(nf);
    if (same) { expo = 0; }
    for (size_t i = 0; i < nf; ++i) { p(i) = 0.125 * s->power(i) * r->power(i) * sc(i) * exp(expo) / sqrt(det); if (p(i) > peak) peak = p(i); }
    if (vp_split(peak > biverb_collection::power_threshold)) { vp_assume(peak > 1.001e-20); } else vp_assume(peak < 0.999e-20);
    biverb_collection c; c.add_biverb(hs, hr, sc, 1);
    vp_assert(c.size(0) == 0 && c.size(1) == (peak > 1e-20 ? 1u : 0u), "kept for its interface unless it is too weak"); if (peak < 1e-20) return;
    const biverb_model b = **c.biverbs(1).begin();
    vp_eq(b.travel_time, s->travel_time + r->travel_time, "two way travel time"); vp_assert(b.frequencies == r->frequencies && b.power.size() == nf, "frequencies of the patches");
    for (size_t i = 0; i < nf; ++i) vp_eq(b.power(i), p(i), "power of the overlap of two Gaussians");
    // spread of the product of the patches along the length of the receiver patch
    double axx = sa * sa / (sl * sl) + ca * ca / (sw * sw) + 1 / (rw * rw), ayy = ca * ca / (sl * sl) + sa * sa / (sw * sw) + 1 / (rl * rl), axy = (1 / (sl * sl) - 1 / (sw * sw)) * sa * ca;
    vp_eq(b.duration, 0.5 * cos(r->grazing) / r->sound_speed * sqrt(axx / (axx * ayy - axy * axy)), "duration of the overlap");
    vp_assert(b.de_index == 102 && b.az_index == 202, "indices of the receiver patch");
    vp_assert(b.source_surface == 301 && b.source_bottom == 401 && b.source_caustic == 501 && b.source_upper == 601 && b.source_lower == 701, "counts of the source patch");
    vp_assert(b.receiver_surface == 302 && b.receiver_bottom == 402 && b.receiver_caustic == 502 && b.receiver_upper == 602 && b.receiver_lower == 702, "counts of the receiver patch");
    vp_eq(b.source_de, s->source_de, "launch angles of the source"); vp_eq(b.source_az, s->source_az, "launch angles of the source"); vp_eq(b.receiver_de, r->source_de, "launch angles of the receiver"); vp_eq(b.receiver_az, r->source_az, "launch angles of the receiver");
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
// ---- biverbs are kept per interface, ordered by time
static void order() {
    biverb_collection c(1); vp_assert(c.num_interfaces() == 4, "two interfaces, and two for each layer"); const int N = 3; double t[N]; size_t at[N];
    for (int k = 0; k < N; ++k) {
        eigenverb_model *s = verb(k, 1), *r = verb(k, 1); s->travel_time = vp_real("time", 0.1, 100); r->travel_time = 1; t[k] = s->travel_time + 1; at[k] = k < 2 ? (size_t)vp_choice("interface", 0, 3) : 2;
        s->length = s->width = r->length = r->width = 100; s->position = r->position = wposition1(10, 20, -30); s->power(0) = r->power(0) = 1; vec sc(1); sc(0) = 0.1; s->source_de = k;
        c.add_biverb(eigenverb_model::csptr(s), eigenverb_model::csptr(r), sc, at[k]);
    }
    for (size_t i = 0; i < 4; ++i) {
        biverb_list l = c.biverbs(i); size_t n = 0; for (int k = 0; k < N; ++k) n += at[k] == i; vp_assert(l.size() == n && c.size(i) == n, "all biverbs of the interface, and no others");
        double last = 0; for (biverb_list::const_iterator it = l.begin(); it != l.end(); ++it) { vp_assert((*it)->travel_time >= last, "ordered by travel time"); last = (*it)->travel_time; int k = (int)(*it)->source_surface - 300; vp_assert(k >= 0 && k < N && at[k] == i, "belongs to the interface"); vp_eq(last, t[k], "travel time"); }
    }
}
// ---- eigenverbs are kept per interface
static void keep() {
    eigenverb_collection c(1); vp_assert(c.num_interfaces() == 4, "two interfaces, and two for each layer"); const int N = 3; size_t at[N]; eigenverb_model::csptr v[N];
    for (int k = 0; k < N; ++k) { eigenverb_model* m = verb(k, 1); m->position = wposition1(vp_real("lat", -60, 60), vp_real("lng", -179, 179), -100); v[k] = eigenverb_model::csptr(m); at[k] = (size_t)vp_choice("interface", 0, 3); eigenverb_listener& l = c; l.add_eigenverb(v[k], at[k]); }
    for (size_t i = 0; i < 4; ++i) { eigenverb_list l = c.eigenverbs(i); size_t n = 0; for (int k = 0; k < N; ++k) { size_t m = 0; for (eigenverb_list::const_iterator it = l.begin(); it != l.end(); ++it) m += *it == v[k]; vp_assert(m == (at[k] == i ? 1u : 0u), "kept once, for its interface"); n += m; } vp_assert(l.size() == n && c.size(i) == n, "nothing else"); }
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
// ---- a search finds the patches inside the search area: a rhombus around the center
static void find() {
    eigenverb_collection c; double lat = (double)vp_param("lat", 40), lng = (double)vp_param("lng", -120); eigenverb_model* b = verb(0, 1); eigenverb_model::csptr hb(b);
    b->position = wposition1(lat, lng, 0); b->length = vp_param("length", 3000); b->width = vp_param("width", 1000); b->direction = vp_param("dir", 30) * PI / 180;
    // a point that moves along a meridian or a parallel, at some offset from the center (in percent of the length)
    int half = (int)vp_param("half", 0); // north or south of the center only
    double t = half > 0 ? vp_real("t", 0.01, 2) : half < 0 ? vp_real("t", -2, -0.01) : vp_real("t", -2, 2), off = vp_param("off", 0) / 100.0, scale = b->length * eigenverb_collection::search_scale, asp = b->width / b->length; int dir = (int)vp_param("line", 0);
    double north = dir == 0 ? t : off, east = dir == 0 ? off : t, sd = sin(b->direction), cd = cos(b->direction), u = north * cd + east * sd, w = (east * cd - north * sd) / asp;
    double ar = (u < 0 ? -u : u) + (w < 0 ? -w : w); bool in = vp_split(ar < 1); if (in) { vp_assume(ar < 0.98); } else vp_assume(ar > 1.02);
    double R = wposition::earth_radius, deg = scale / R * 180 / PI;
    eigenverb_model* m = verb(1, 1); m->position = wposition1(lat + north * deg, lng + east * deg / cos(lat * PI / 180), 0); eigenverb_model::csptr hm(m); c.add_eigenverb(hm, 0);
    eigenverb_list l = c.find_eigenverbs(hb, 0); vp_assert(l.size() == (in ? 1u : 0u), "found when it is inside the search area");
    vp_assert(c.find_eigenverbs(hb, 1).empty(), "nothing at other interfaces");
}
// ---- the background task: overlaps of all patches of both sensors that are close to each other
#include <usml/biverbs/biverb_generator.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/ocean/ocean_shared.h>
#include <usml/ocean/boundary_flat.h>
#include <usml/ocean/profile_linear.h>
using namespace usml::ocean; using namespace usml::sensors;
struct echo : scattering_model {
    mutable int calls; mutable std::vector<double> in; double s[2]; echo() : calls(0) {}
    void scattering(const wposition1& l, const seq_vector::csptr& f, double di, double ds, double ai, double as, vec* a) const override { ++calls; in.push_back(l.latitude()); in.push_back((double)f->size()); in.push_back(di); in.push_back(ds); in.push_back(ai); in.push_back(as); for (size_t i = 0; i < f->size(); ++i) (*a)(i) = s[i] * calls; }
    void scattering(const wposition&, const seq_vector::csptr&, double, matrix<double>, double, matrix<double>, matrix<vec>*) const override {}
};
static void task() {
    const size_t nf = 2; const int early = (int)vp_param("abort", 0); echo* e[2]; scattering_model::csptr h[2]; for (int i = 0; i < 2; ++i) { e[i] = new echo(); h[i] = scattering_model::csptr(e[i]); for (size_t k = 0; k < nf; ++k) e[i]->s[k] = vp_real("scattering", 0.01, 0.1); }
    boundary_flat *top = new boundary_flat(0.0), *bot = new boundary_flat(-1000.0); boundary_model::csptr ht(top), hb(bot); top->boundary_model::scattering(h[1]); bot->boundary_model::scattering(h[0]); ocean_shared::update(ocean_model::csptr(new ocean_model(ht, hb, profile_model::csptr(new profile_linear(1500.0))))); sensor_manager::instance()->frequencies(freqs(nf));
    sensor_model::sptr a(new sensor_model(1, "a")), b(new sensor_model(2, "b")); sensor_pair::sptr pair(new sensor_pair(a, b));
    eigenverb_collection *sv = new eigenverb_collection(0), *rv = new eigenverb_collection(0); eigenverb_collection::csptr hs(sv), hr(rv);
    for (int k = 0; k < 6; ++k) { // 0,1: near bottom patches of the source; 2: far away; 3: at the surface; 4,5: patches of the receiver at the bottom and the surface
        eigenverb_model* v = verb(k, nf); v->length = 1000; v->width = 800; v->position = wposition1(k == 2 ? 50 : 40, k == 2 ? -100 : -120, -10); v->travel_time = 1.0 + 0.5 * k; v->grazing = 0.2 + 0.1 * k; v->direction = 0.5 + 0.1 * k; for (size_t i = 0; i < nf; ++i) v->power(i) = vp_real("power", 0.1, 1); (k < 4 ? sv : rv)->add_eigenverb(eigenverb_model::csptr(v), k == 3 || k == 5 ? 1 : 0);
    }
    biverb_generator g(pair, hs, hr); if (early) g.abort(); g.run(); if (early) { vp_assert(!g.done() && pair->biverbs() == nullptr && e[0]->calls == 0, "aborted before it started"); return; }
    biverb_collection::csptr c = pair->biverbs(); vp_assert(g.done() && c != nullptr, "the pair is told of the result"); biverb_collection ref(0); vp_assert(c->num_interfaces() == 2, "interfaces"); int calls[2] = {0, 0};
    for (size_t i = 0; i < 2; ++i) { eigenverb_list rl = hr->eigenverbs(i); for (eigenverb_list::iterator r = rl.begin(); r != rl.end(); ++r) { eigenverb_list sl = hs->find_eigenverbs(*r, i); for (eigenverb_list::iterator s = sl.begin(); s != sl.end(); ++s) { const double* in = &e[i]->in[6 * calls[i]++]; vp_assert((int)e[i]->in.size() >= 6 * calls[i], "scattering of the interface"); vp_assert(fabs(in[0] - 40) < 1e-9 && in[1] == 2.0 && in[2] == (*s)->grazing && in[3] == (*r)->grazing && in[4] == (*s)->direction && in[5] == (*r)->direction, "scattering from the source to the receiver"); vec sc(nf); for (size_t k = 0; k < nf; ++k) sc(k) = e[i]->s[k] * calls[i]; ref.add_biverb(*s, *r, sc, i); } }
        vp_assert(calls[i] == e[i]->calls && calls[i] == (i ? 1 : 2), "every overlap once"); biverb_list x = c->biverbs(i), y = ref.biverbs(i); vp_assert(x.size() == y.size(), "biverbs of the interface"); biverb_list::iterator p = x.begin(), q = y.begin(); for (; p != x.end() && q != y.end(); ++p, ++q) { vp_eq((*p)->travel_time, (*q)->travel_time, "travel time"); vp_assert((*p)->source_surface == (*q)->source_surface && (*p)->receiver_surface == (*q)->receiver_surface, "patches"); for (size_t k = 0; k < nf; ++k) vp_eq((*p)->power(k), (*q)->power(k), "power"); } }
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
void h_main() {
    wposition::compute_earth_radius(30.0);
    switch (vp_param("kind", 0)) { case 0: overlap(); break; case 1: order(); break; case 2: keep(); break; case 3: find(); break; case 4: task(); break; }
}
