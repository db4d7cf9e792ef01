// P28 / P24: which rays are handed to the reflection model, and what the queue
// counts for them.  The reflection model itself is replaced by a recorder here.
#include "queue_mock.h"
static int ups, downs, last_de, last_az; static double last_depth; static int answer[4];
static wave_queue* Q;
static double after[4];
static int calls;
static void moved(size_t de, size_t az) { if (calls < 4 && answer[calls]) { setw(Q->_next->position, de, az, after[calls], 1, 0); } ++calls; }
bool reflection_model::surface_reflection(size_t de, size_t az) {
    ++ups; last_de = (int)de; last_az = (int)az; bool r = answer[calls & 3]; moved(de, az); return r;
}
bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
    ++downs; last_de = (int)de; last_az = (int)az; last_depth = depth; bool r = answer[calls & 3]; moved(de, az); return r;
}
static wave_front* front(wave_queue* q, int n) { return n == 0 ? q->_past : n == 1 ? q->_prev : n == 2 ? q->_curr : q->_next; }
// one ray of a 2x2 fan: where it ends decides what is called
static void one() {
    env e; wave_queue* q = Q = queue(e, fan(-10, 10, 2), fan(0, 10, 2), 0.1);
    q->_reflection_model = (reflection_model*)operator new(sizeof(reflection_model));
    int where = (int)vp_param("where", 0), twice = (int)vp_param("twice", 0);
    long s = vp_int("s", 0, 1000), b = vp_int("b", 0, 1000);
    double floor = vp_real("floor", R0 - 5000, R0 - 10);
    e.bottom->h = floor;
    size_t I = vp_param("i", 1), J = vp_param("j", 0);
    for (int n = 0; n < 4; ++n) for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) {
        setw(front(q, n)->position, i, j, R0 - 5, 1, 0);
        front(q, n)->surface(i, j) = s + (n == 3 ? 0 : 1000); front(q, n)->bottom(i, j) = b + (n == 3 ? 0 : 2000);
    }
    double r = where == 1 ? vp_real("r", R0 + 1e-3, R0 + 500) : where == 2 ? vp_real("r", R0 - 6000, R0 - 10) : vp_real("r", R0 - 5000, R0 - 1e-3);
    if (where == 2) { vp_assume(r < floor - 1e-3); } else { vp_assume(r > floor + 1e-3); }
    setw(q->_next->position, I, J, r, 1, 0);
    int ok = answer[0] = (int)vp_choice("reflects", 0, 1);
    answer[1] = 1; answer[2] = answer[3] = 0;
    // where the first reflection leaves the ray: in the water, or over the other boundary
    after[0] = where == 1 ? (twice ? floor - 2 : R0 - 3) : (twice ? R0 + 2 : floor + 3);
    if (after[0] < floor && !twice) after[0] = floor + 3;
    after[1] = R0 - 4;
    vp_assume(floor < R0 - 9.9);
    bool up = q->detect_reflections_surface(I, J);
    bool down = false; if (!up) down = q->detect_reflections_bottom(I, J);
    int first = where == 0 ? 0 : ok, second = first && twice;
    vp_assert(up == (where == 1 && ok), "reflected at the surface");
    vp_assert(down == (where == 2 && ok), "reflected at the bottom");
    int su = (where == 1 ? first : second), bo = (where == 2 ? first : second);
    if (where == 0) vp_assert(ups == 0 && downs == 0, "rays that stay in the water do not reflect");
    else {
        if (ok || where == 2) vp_assert(where == 1 ? ups == 1 && downs == twice : downs == 1 && ups == (twice && ok), "each crossing is reflected once");
        vp_assert(last_de == (int)I && last_az == (int)J, "the ray that crosses is reflected");
        if (where == 2) vp_eq(last_depth, floor - r, "depth under the bottom");
        if (where == 1 && second) vp_eq(last_depth, 2, "depth under the bottom after the surface");
    }
    for (int n = 0; n < 4; ++n) for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) {
        bool me = i == I && j == J;
        bool all_s = me && su, all_b = me && bo;
        vp_assert(front(q, n)->surface(i, j) == (all_s ? s + 1 : n == 3 ? s : s + 1000), "surface bounces, in all four wavefronts");
        vp_assert(front(q, n)->bottom(i, j) == (all_b ? b + 1 : n == 3 ? b : b + 2000), "bottom bounces, in all four wavefronts");
    }
}
// every ray of the fan is looked at; a ray in the water is tested for vertices and caustics
static void all() {
    env e; const size_t N = 3, M = 2; wave_queue* q = Q = queue(e, fan(-10, 10, N), fan(0, 10, M), 0.1);
    q->_reflection_model = (reflection_model*)operator new(sizeof(reflection_model));
    e.bottom->h = R0 - 1000;
    size_t I = vp_param("i", 1), J = vp_param("j", 0); int where = (int)vp_param("where", 0);
    calls = 10; for (int k = 0; k < 4; ++k) answer[k] = 1;
    for (int n = 0; n < 4; ++n) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) {
        setw(front(q, n)->position, i, j, R0 - 500 + 10.0 * i, 1, 0); setw(front(q, n)->ndirection, i, j, 1e-4, 0, 0);
        front(q, n)->surface(i, j) = 0; front(q, n)->bottom(i, j) = 0; front(q, n)->upper(i, j) = 0; front(q, n)->lower(i, j) = 0; front(q, n)->caustic(i, j) = 0;
        for (int f = 0; f < 2; ++f) front(q, n)->phase(i, j)(f) = 0;
    }
    double r = where == 1 ? vp_real("r", R0 + 1e-3, R0 + 500) : where == 2 ? vp_real("r", R0 - 2000, R0 - 1001) : vp_real("r", R0 - 999, R0 - 1e-3);
    double n0 = vp_real("n0", -7e-4, 7e-4), n1 = vp_real("n1", -7e-4, 7e-4);
    vp_assume(n0 > 1e-6 || n0 < -1e-6); vp_assume(n1 > 1e-6 || n1 < -1e-6);
    setw(q->_curr->ndirection, I, J, n0, 0, 0); setw(q->_next->ndirection, I, J, n1, 0, 0);
    setw(q->_next->position, I, J, r, 1, 0);
    bool below = I > 0 && where != 1 && r < R0 - 500 + 10.0 * (I - 1) - 1e-3;      // folds over the ray below it
    bool above = I + 1 < N && where != 2 && r > R0 - 500 + 10.0 * (I + 1) + 1e-3;  // or the one above
    if (I > 0 && where != 1) vp_assume(below || r > R0 - 500 + 10.0 * (I - 1) + 1e-3);
    if (I + 1 < N && where != 2) vp_assume(above || r < R0 - 500 + 10.0 * (I + 1) - 1e-3);
    q->detect_reflections();
    vp_assert(ups == (where == 1) && downs == (where == 2), "one reflection"); if (where) vp_assert(last_de == (int)I && last_az == (int)J, "of the ray that crosses");
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) {
        bool me = i == I && j == J;
        vp_assert(q->_next->surface(i, j) == (me && where == 1) && q->_next->bottom(i, j) == (me && where == 2), "bounce counts");
        vp_assert(q->_next->upper(i, j) == (me && !where && n0 > 0 && n1 < 0), "upper vertices"); vp_assert(q->_next->lower(i, j) == (me && !where && n0 < 0 && n1 > 0), "lower vertices");
        if (where) continue;
        int c = (me && below) + (i == I + 1 && j == J && above);
        vp_assert(q->_next->caustic(i, j) == c, "caustics where neighbours cross");
        for (int f = 0; f < 2; ++f) { double ph = q->_next->phase(i, j)(f) / (-M_PI / 2); vp_assert(ph > c - 1e-9 && ph < c + 1e-9, "caustic phase"); };
    }
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: one(); break;
        case 1: all(); break;
    }
}
