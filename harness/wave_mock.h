// Environment models with arbitrary answers, shared by the wave harnesses.
#include <usml/waveq3d/ode_integ.h>
#include <usml/waveq3d/wave_front.h>
#include <usml/ocean/ocean_model.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_data.h>
#include <cmath>
using namespace usml::types;
using namespace usml::ocean;
using namespace usml::waveq3d;
typedef boost::numeric::ublas::vector<double> vec;
typedef boost::numeric::ublas::matrix<double> mat;
static const double PI = 3.14159265358979323846;
static const double D2R = PI / 180.0;
static volatile double sink;

// an arbitrary sound speed field with an arbitrary gradient
struct mock_profile : profile_model {
    void sound_speed(const wposition& p, matrix<double>* s, wvector* g = nullptr) const override {
        for (size_t i = 0; i < p.size1(); ++i) for (size_t j = 0; j < p.size2(); ++j) {
            double r = p.rho(i, j), t = p.theta(i, j);
            (*s)(i, j) = vp_uf("c", r, t, 1400, 1600);
            if (g) { g->rho(i, j, vp_uf("gr", r, t, -2, 2)); g->theta(i, j, vp_uf("gt", r, t, -1e5, 1e5)); g->phi(i, j, vp_uf("gp", r, t, -1e5, 1e5)); }
        }
    }
};
struct mock_attenuation : attenuation_model {
    void attenuation(const wposition& p, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < p.size1(); ++i) for (size_t j = 0; j < p.size2(); ++j) for (size_t k = 0; k < f->size(); ++k)
            (*a)(i, j)(k) = vp_uf("att", d(i, j), (*f)(k), 0, 10);
    }
};
struct mock_loss : reflect_loss_model {
    void reflect_loss(const wposition1& p, const seq_vector::csptr& f, double g, vector<double>* a, vector<double>* ph = nullptr) const override {
        for (size_t k = 0; k < f->size(); ++k) { (*a)(k) = vp_uf("loss", g, (*f)(k), 0, 50); if (ph) (*ph)(k) = vp_uf("lossphase", g, (*f)(k), -3, 3); }
    }
};
// a boundary at a height and with a slope that are inputs
struct mock_boundary : boundary_model {
    double h, nr, nt, np;
    mock_boundary() : boundary_model(reflect_loss_model::csptr(new mock_loss())), h(0), nr(1), nt(0), np(0) {}
    void height(const wposition& p, matrix<double>* rho, wvector* n = nullptr) const override {
        for (size_t i = 0; i < p.size1(); ++i) for (size_t j = 0; j < p.size2(); ++j) {
            (*rho)(i, j) = h; if (n) { n->rho(i, j, nr); n->theta(i, j, nt); n->phi(i, j, np); }
        }
    }
    void height(const wposition1& p, double* rho, wvector1* n = nullptr) const override {
        *rho = h; if (n) { n->rho(nr); n->theta(nt); n->phi(np); }
    }
};
static seq_vector::csptr freqs() { return seq_vector::csptr(new seq_linear(1000.0, 500.0, (size_t)2)); }
static void setw(wvector& w, size_t i, size_t j, double a, double b, double c) { w.rho(i, j, a); w.theta(i, j, b); w.phi(i, j, c); }
static double getw(const wvector& w, int k, size_t i, size_t j) { return k == 0 ? w.rho(i, j) : k == 1 ? w.theta(i, j) : w.phi(i, j); }
