// Managed objects, notifiers and platforms.
#include <usml/managed/managed_obj.h>
#include <usml/managed/manager_listener.h>
#include <usml/managed/manager_template.h>
#include <usml/managed/update_listener.h>
#include <usml/managed/update_notifier.h>
#include <usml/platforms/platform_manager.h>
#include <usml/platforms/platform_model.h>
#include <usml/eigenrays/eigenray_notifier.h>
#include <usml/eigenverbs/eigenverb_notifier.h>
#include <usml/wavegen/wavefront_notifier.h>
using namespace usml::managed; using namespace usml::types; using namespace usml::platforms; using namespace usml::eigenrays; using namespace usml::eigenverbs; using namespace usml::wavegen;
struct thing : managed_obj<uint64_t, thing> { static int alive; thing(uint64_t k) : managed_obj<uint64_t, thing>(k, "thing") { ++alive; } ~thing() { --alive; } };
int thing::alive = 0;
struct ear : manager_listener<thing> {
    mutable int adds, removes; mutable const thing* added; mutable uint64_t gone; ear() : adds(0), removes(0), added(0), gone(0) {}
    void notify_add(const thing* o) const override { ++adds; added = o; }
    void notify_remove(uint64_t k) const override { ++removes; gone = k; }
};
// ---- histories of a manager: a map from keys to objects, and a set of listeners
static void manager() {
    manager_template<thing> m; const int NK = 2, N = (int)vp_param("steps", 3); uint64_t key[NK]; thing::sptr obj[NK + 1]; ear L[2]; bool on[2] = {false, false}; int in[NK] = {-1, -1};
    for (int k = 0; k < NK; ++k) key[k] = (uint64_t)vp_int("key", 0, 1000000); bool same = vp_split(key[0] == key[1]); for (int k = 0; k < NK; ++k) obj[k] = std::make_shared<thing>(key[k]); obj[NK] = std::make_shared<thing>(key[0]);
    // in[k]: the object that is registered under key k
    for (int step = 0; step < N; ++step) {
        int op = (int)vp_choice("operation", 0, 8), ev_add = 0, ev_rem = 0, what = -1; uint64_t gone = 0; for (int l = 0; l < 2; ++l) L[l].adds = L[l].removes = 0;
        if (op < 3) { int slot = op == 1 && !same ? 1 : 0; bool dup = in[slot] >= 0, threw = false; uint64_t r = 0; try { r = m.add(obj[op]); } catch (manager_template<thing>::duplicate_key&) { threw = true; } vp_assert(threw == dup, "a key is registered once"); if (!dup) { in[slot] = op; ev_add = 1; what = op; vp_assert(r == obj[op]->keyID(), "key of the new object"); } }
        else if (op < 5) { int k = op - 3, slot = same ? 0 : k; bool r = m.remove(key[k]); vp_assert(r == (in[slot] >= 0), "removed when it is registered"); if (r) { in[slot] = -1; ev_rem = 1; gone = key[k]; } }
        else if (op < 7) { m.add_listener(&L[op - 5]); on[op - 5] = true; }
        else { m.remove_listener(&L[op - 7]); on[op - 7] = false; }
        for (int l = 0; l < 2; ++l) { vp_assert(L[l].adds == (on[l] ? ev_add : 0) && L[l].removes == (on[l] ? ev_rem : 0), "each listener hears each event once"); if (on[l] && ev_add) vp_assert(L[l].added == obj[what].get(), "told of the new object"); if (on[l] && ev_rem) vp_assert(L[l].gone == gone, "told of the key that is removed"); }
        size_t n = 0; for (int k = 0; k < NK; ++k) { int slot = same ? 0 : k; thing::sptr f = m.find(key[k]); vp_assert(in[slot] >= 0 ? f == obj[in[slot]] : f == nullptr, "finds the object of the key"); if (in[k] >= 0) ++n; }
        { std::list<thing::sptr> l = m.list(); vp_assert(l.size() == n, "lists what is registered"); for (std::list<thing::sptr>::const_iterator it = l.begin(); it != l.end(); ++it) { int c = 0; for (int k = 0; k < NK; ++k) if (in[k] >= 0 && obj[in[k]] == *it) ++c; vp_assert(c == 1, "lists what is registered"); } }
        uint64_t other = (uint64_t)1000001; vp_assert(m.find(other) == nullptr && !m.remove(other), "nothing under another key");
        for (int k = 0; k <= NK; ++k) vp_assert(obj[k].use_count() == (in[0] == k || in[1] == k ? 2 : 1), "keeps registered objects alive, and no others") ;
        vp_assert(vp_locks_held() == 0, "no lock is held");
    }
}
// ---- histories of notifiers
struct rec { int n; const void* a; const void* b; size_t i, j, r; double t; rec() : n(0), a(0), b(0), i(0), j(0), r(0), t(0) {} };
struct ul : update_listener<thing> { rec e; void notify_update(const thing* o) override { ++e.n; e.a = o; } };
struct rl : eigenray_listener { rec e, c; void add_eigenray(size_t a, size_t b, eigenray_model::csptr ray, size_t run) override { ++e.n; e.i = a; e.j = b; e.a = ray.get(); e.r = run; } void check_eigenrays(double t, size_t run) override { ++c.n; c.t = t; c.r = run; } };
struct vl : eigenverb_listener { rec e; void add_eigenverb(eigenverb_model::csptr v, size_t i) override { ++e.n; e.a = v.get(); e.i = i; } };
struct wl : wavefront_listener { rec e; void update_wavefront_data(const usml::sensors::sensor_model* s, eigenray_collection::csptr r, eigenverb_collection::csptr v) override { ++e.n; e.a = s; e.b = r.get(); e.i = v == nullptr; } };
static void notifiers() {
    int which = (int)vp_param("which", 0); const int N = (int)vp_param("steps", 4); bool on[2] = {false, false}; update_notifier<thing> un; eigenray_notifier rn; eigenverb_notifier vn; wavefront_notifier wn; ul u[2]; rl r[2]; vl v[2]; wl w[2];
    thing th(1); eigenray_model::csptr ray(new eigenray_model()); eigenverb_model::csptr verb(new eigenverb_model());
    for (int step = 0; step < N; ++step) {
        int op = (int)vp_choice("operation", 0, which == 1 ? 5 : 4), k = op % 2; for (int l = 0; l < 2; ++l) u[l].e.n = r[l].e.n = r[l].c.n = v[l].e.n = w[l].e.n = 0;
        size_t a = 3 + (size_t)step, b = 7, run = 11; double t = 0.5 * step; bool sent = false, checked = false;
        if (op < 2) { on[k] = true; if (which == 0) un.add_listener(&u[k]); else if (which == 1) rn.add_eigenray_listener(&r[k]); else if (which == 2) vn.add_eigenverb_listener(&v[k]); else wn.add_wavefront_listener(&w[k]); }
        else if (op < 4) { on[k] = false; if (which == 0) un.remove_listener(&u[k]); else if (which == 1) rn.remove_eigenray_listener(&r[k]); else if (which == 2) vn.remove_eigenverb_listener(&v[k]); else wn.remove_wavefront_listener(&w[k]); }
        else if (op == 4) { sent = true; if (which == 0) un.notify_update(&th); else if (which == 1) rn.notify_eigenray_listeners(a, b, ray, run); else if (which == 2) vn.notify_eigenverb_listeners(verb, a); else wn.notify_wavefront_listeners((const usml::sensors::sensor_model*)0, eigenray_collection::csptr(), eigenverb_collection::csptr()); }
        else { checked = true; rn.check_eigenray_listeners(t, run); }
        for (int l = 0; l < 2; ++l) {
            const rec& e = which == 0 ? u[l].e : which == 1 ? r[l].e : which == 2 ? v[l].e : w[l].e; vp_assert(e.n == (sent && on[l] ? 1 : 0), "each listener is told once");
            if (sent && on[l]) { if (which == 0) vp_assert(e.a == &th, "of this object"); if (which == 1) vp_assert(e.a == ray.get() && e.i == a && e.j == b && e.r == run, "of this ray and target"); if (which == 2) vp_assert(e.a == verb.get() && e.i == a, "of this eigenverb and interface"); }
            if (which == 1) { vp_assert(r[l].c.n == (checked && on[l] ? 1 : 0), "each listener is checked once"); if (checked && on[l]) vp_assert(r[l].c.t == t && r[l].c.r == run, "time and run of the check"); }
        }
        if (which == 1) vp_assert(rn.has_eigenray_listeners() == (on[0] || on[1]), "has listeners"); if (which == 2) vp_assert(vn.has_eigenverb_listeners() == (on[0] || on[1]), "has listeners");
    }
}
// ---- the platform manager gives keys to platforms without one
static void platforms() {
    platform_manager::reset(); platform_manager* pm = platform_manager::instance(); vp_assert(pm == platform_manager::instance(), "one manager");
    uint64_t k[3], got[3]; for (int i = 0; i < 3; ++i) { k[i] = vp_choice("has key", 0, 1) ? (uint64_t)vp_int("key", 1, 1000000) : 0; }
    platform_model::sptr p[3]; for (int i = 0; i < 3; ++i) {
        p[i] = platform_model::sptr(new platform_model(k[i], "p")); bool dup = false; for (int j = 0; j < i; ++j) if (k[i]) dup = dup || vp_split(got[j] == k[i]);
        bool threw = false; try { got[i] = pm->add(p[i]); } catch (platform_manager::duplicate_key&) { threw = true; } vp_assert(threw == dup, "a key is registered once"); if (threw) return;
        vp_assert(k[i] ? got[i] == k[i] : got[i] != 0, "keeps the key it has, or gets one"); vp_assert(p[i]->keyID() == got[i], "key of the platform"); for (int j = 0; j < i; ++j) vp_assert(got[j] != got[i], "keys are unique");
        for (int j = 0; j <= i; ++j) vp_assert(pm->find(got[j]) == p[j], "finds the platform"); vp_assert(pm->list().size() == (size_t)i + 1, "lists all platforms");
    }
    vp_assert(pm->remove(got[1]) && pm->find(got[1]) == nullptr && pm->find(got[0]) == p[0] && pm->find(got[2]) == p[2], "removes one platform");
    platform_manager::reset(); vp_assert(platform_manager::instance()->list().empty(), "a new manager is empty"); vp_assert(vp_locks_held() == 0, "no lock is held"); platform_manager::reset();
}
// ---- linkage of platforms
struct plat : platform_model {
    int calls; update_type_enum type; plat(uint64_t k) : platform_model(k, "p"), calls(0), type(TEST_THRESHOLD) {}
    void update_internals(time_t t, const wposition1& p, const orientation& o, double s, update_type_enum u) override { ++calls; type = u; platform_model::update_internals(t, p, o, s, u); }
};
static void linkage() {
    std::shared_ptr<plat> h(new plat(1)), c[3] = {std::shared_ptr<plat>(new plat(2)), std::shared_ptr<plat>(new plat(3)), std::shared_ptr<plat>(new plat(2))}; bool in[3] = {false, false, false}; const int N = (int)vp_param("steps", 4);
    for (int step = 0; step < N; ++step) {
        int op = (int)vp_choice("operation", 0, 5);
        if (op < 3) { bool dup = in[op] || (op != 1 && in[2 - op]), threw = false; try { uint64_t r = h->add_child(c[op]); vp_assert(r == c[op]->keyID(), "key of the child"); } catch (std::exception&) { threw = true; } vp_assert(threw == dup, "a child is added once"); if (!dup) in[op] = true; }
        else if (op < 5) { uint64_t k = (uint64_t)(op - 1); bool r = h->remove_child(k); bool was = op == 3 ? in[0] || in[2] : in[1]; vp_assert(r == was, "removed when it is a child"); if (op == 3) in[0] = in[2] = false; else in[1] = false; }
        else { int n[3]; for (int k = 0; k < 3; ++k) n[k] = c[k]->calls; int hc = h->calls; h->update(10 + step, wposition1(1, 2, -3), orientation(), 4.0, platform_model::FORCE_UPDATE); vp_assert(h->calls == hc + 1, "the host is updated"); for (int k = 0; k < 3; ++k) { vp_assert(c[k]->calls == n[k] + (in[k] ? 1 : 0), "each child is updated once, and nothing else"); if (in[k]) vp_assert(c[k]->time() == 10 + step && c[k]->type == platform_model::FORCE_UPDATE, "time and type of the update"); } }
        std::list<platform_model::sptr> l = h->children(); size_t m = 0; for (int k = 0; k < 3; ++k) { m += in[k]; vp_assert(c[k]->host() == (in[k] ? h.get() : (platform_model*)0), "host of each child"); int x = 0; for (std::list<platform_model::sptr>::const_iterator it = l.begin(); it != l.end(); ++it) x += *it == c[k]; vp_assert(x == (in[k] ? 1 : 0), "children of the host"); }
        vp_assert(l.size() == m && h->host() == nullptr, "children of the host"); vp_assert(vp_locks_held() == 0, "no lock is held");
    }
}
static void rot(const orientation& o, const double v[3], double w[3]) { for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) w[i] += o.rotation()(i, j) * v[j]; } }
static void motion() {
    std::shared_ptr<plat> h(new plat(1)), c(new plat(2)), g(new plat(3)); double off[3], off2[3] = {3, -4, 5}; for (int i = 0; i < 3; ++i) off[i] = vp_real("offset", -100, 100);
    orientation ho(vp_real("yaw", -180, 180), vp_real("pitch", -80, 80), vp_real("roll", -80, 80)), co(20, -10, 30), go(1, 2, 3); double lat = vp_param("lat", 40), alt = vp_real("altitude", -5000, 0), speed = vp_real("speed", -20, 20);
    h->add_child(c, bvector(off[0], off[1], off[2]), co); c->add_child(g, bvector(off2[0], off2[1], off2[2]), go); vp_assert(c->host() == h.get() && g->host() == c.get(), "hosts"); long t0 = 100;
    wposition1 at(lat, vp_real("longitude", -170, 170), alt); int cc = c->calls, gc = g->calls; h->update(t0, at, ho, speed, platform_model::NO_UPDATE);
    vp_assert(c->calls == cc + 1 && g->calls == gc + 1 && c->type == platform_model::NO_UPDATE && g->type == platform_model::NO_UPDATE, "each is updated once"); if (vp_param("elapsed", 0)) {
        long dt = vp_choice("elapsed", 0, 3); dt = dt == 3 ? 3600 : dt == 2 ? 7 : dt; double d[3] = {speed * dt * ho.rotation()(0, 0), speed * dt * ho.rotation()(1, 0), speed * dt * ho.rotation()(2, 0)}; h->update(t0 + dt, platform_model::FORCE_UPDATE);
        wposition1 e; e.rho(at.rho() + d[2]); e.theta(at.theta() - d[0] / at.rho()); e.phi(at.phi() + d[1] / (at.rho() * sin(at.theta()))); wposition1 p = h->position();
        vp_eq(p.rho(), e.rho(), "moves by speed along its heading"); vp_eq(p.theta(), e.theta(), "moves by speed along its heading"); vp_eq(p.phi(), e.phi(), "moves by speed along its heading"); vp_assert(h->time() == t0 + dt && c->time() == t0 + dt && g->time() == t0 + dt && g->type == platform_model::FORCE_UPDATE, "time of the update"); vp_eq(h->speed(), speed, "speed"); return;
    }
    time_t t; wposition1 hp, p; orientation o, q; double s; h->get_motion(&t, &hp, &o, &s); vp_assert(t == t0, "time of the host"); vp_eq(s, speed, "speed of the host"); vp_eq(hp.rho(), at.rho(), "position of the host"); vp_eq(hp.theta(), at.theta(), "position of the host"); vp_eq(hp.phi(), at.phi(), "position of the host");
    double w[3]; rot(ho, off, w); c->get_motion(&t, &p, &q, &s); vp_assert(t == t0, "time of the child"); vp_eq(s, speed, "speed of the child");
    vp_eq(p.rho(), at.rho() + w[2], "child is above its host by the offset"); vp_eq(p.theta(), at.theta() - w[0] / at.rho(), "child is north of its host by the offset"); vp_eq(p.phi(), at.phi() + w[1] / (at.rho() * sin(at.theta())), "child is east of its host by the offset");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = 0; for (int k = 0; k < 3; ++k) x += ho.rotation()(i, k) * co.rotation()(k, j); vp_eq(q.rotation()(i, j), x, "orientation of the child is relative to its host"); }
    double w2[3]; rot(q, off2, w2); vp_eq(g->position().rho(), p.rho() + w2[2], "child of a child"); vp_eq(g->position().theta(), p.theta() - w2[0] / p.rho(), "child of a child"); vp_eq(g->position().phi(), p.phi() + w2[1] / (p.rho() * sin(p.theta())), "child of a child"); vp_eq(g->speed(), speed, "child of a child");
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
void h_main() {
    wposition::compute_earth_radius(30.0);
    switch (vp_param("kind", 0)) { case 0: manager(); break; case 1: notifiers(); break; case 2: platforms(); break; case 10: linkage(); break; case 11: motion(); break; }
}
