import sys
from seed import mk
from bugs_a import HEAD
only = sys.argv[1:] or ['b%02d' % i for i in range(5, 15)]
SRC = ['src/components/Sources.cpp', 'src/components/Spherical.cpp']
DRV = ['src/driver/driver.cpp', 'src/components/Material.cpp'] + SRC

mk('b05', 'P03', [('src/math/Function.h', 'double carrier = cos(2.0 * M_PI * freq_ * arg);', 'double carrier = cos(2.0 * M_PI * freq_ * pos[X]);')], SRC, HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    for (double m : {-0.7, 0.0, 1.3}) for (double x : {-1.0, 0.2, 0.9}) {
        ModulatedGaussian g(0.8, mfem::Vector({m}), 1.7);
        near("modulated gaussian", g.eval(mfem::Vector({x})), std::exp(-(x - m) * (x - m) / (2 * 0.64)) * std::cos(2 * M_PI * 1.7 * (x - m)));
    }
    return bad;
}
''', 'a modulated pulse whose mean is not zero', 'the carrier of a modulated pulse is not centred on its envelope', only=only)

mk('b06', 'P04', [('src/math/Function.h', 'iret * (-2.0) / spreadsqrt2 / spreadsqrt2;', 'iret * (-2.0) / (gaussSpread_ * gaussSpread_);')], SRC, HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    DerivGaussDipole f(100.0, 0.6, 1.1);
    const double h = 1e-4;
    double pts[3][3] = {{0.9, 0.4, 0.3}, {-0.5, 0.8, -0.7}, {1.5, -1.1, 0.6}};
    auto at = [&](const double* p, int d, double dx, double t, FieldType ft, int c) {
        mfem::Vector v({p[0], p[1], p[2]}); v[d] += dx; return f.eval(v, t, ft, c); };
    for (auto& p : pts) for (double t : {1.4, 2.3}) for (int c = 0; c < 3; c++) {
        int a = (c + 1) % 3, b = (c + 2) % 3;
        double curl = (at(p, a, h, t, E, b) - at(p, a, -h, t, E, b) - at(p, b, h, t, E, a) + at(p, b, -h, t, E, a)) / (2 * h);
        double rate = (at(p, 0, 0, t + h, H, c) - at(p, 0, 0, t - h, H, c)) / (2 * h);
        near("curl E against -dH/dt", curl, -rate, 1e-4);
        curl = (at(p, a, h, t, H, b) - at(p, a, -h, t, H, b) - at(p, b, h, t, H, a) + at(p, b, -h, t, H, a)) / (2 * h);
        rate = (at(p, 0, 0, t + h, E, c) - at(p, 0, 0, t - h, E, c)) / (2 * h);
        near("curl H against dE/dt", curl, rate, 1e-4);
    }
    return bad;
}
''', 'any point away from the axis; the fields stay smooth and of the right size', 'the dipole field no longer obeys the Maxwell equations in vacuum', only=only)

mk('b07', 'P05', [('src/components/Spherical.cpp', 'res[1] = sinp * (sint * Ar + cost * At) + cosp * Ap;', 'res[1] = sinp * (sint * Ar + std::abs(cost) * At) + cosp * Ap;')], SRC, HEAD + r'''
#include "components/Spherical.h"
using namespace maxwell;
int main() {
    for (double th : {0.3, 1.2, 2.0, 2.9}) for (double ph : {-2.5, -0.4, 0.8, 2.2}) {
        SphericalVector v(1.7, th, ph);
        auto r = v.convertSphericalVectorFieldToCartesian(0.4, -1.1, 0.7);
        double er[3] = {std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)};
        double et[3] = {std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)};
        double ep[3] = {-std::sin(ph), std::cos(ph), 0};
        double s[3] = {0, 0, 0};
        for (int d = 0; d < 3; d++) { s[0] += r[d] * er[d]; s[1] += r[d] * et[d]; s[2] += r[d] * ep[d]; }
        near("radial", s[0], 0.4); near("polar", s[1], -1.1); near("azimuthal", s[2], 0.7);
    }
    return bad;
}
''', 'a direction in the lower half space', 'vector fields below the equator are converted wrongly', only=only)

mk('b08', 'P08', [('src/driver/driver.cpp', 'res.setODEType(case_data["solver_options"]["ode_type"]);', 'res.setODEType(case_data["solver_options"]["ode_type"].get<size_t>() % 6);')], DRV, HEAD + r'''
#include "driver/driver.h"
using namespace maxwell;
int main() {
    for (int o = 0; o <= 6; o++) {
        json c = {{"solver_options", {{"ode_type", o}, {"cfl", 0.7}, {"order", 3}}}};
        auto r = driver::buildSolverOptions(c);
        near("integrator", r.ode_type, o); near("cfl", r.cfl, 0.7); near("order", r.evolution.order, 3);
    }
    return bad;
}
''', 'the last of the implicit integrators', 'a case naming integrator 6 is run with another one', only=only)

PW = r'''
#include "driver/driver.h"
using namespace maxwell;
int main() {
    for (int mod = 0; mod < 2; mod++) for (double k : {1.0, 0.5, 3.0}) for (double m : {0.0, -2.0}) {
        json s = {{"type", "planewave"}, {"polarization", {0.0, 1.0, 0.0}}, {"propagation", {k, 0.0, 0.0}}, {"magnitude", {{"type", "gaussian"}, {"spread", 0.6}, {"mean", {m, 5.0, 0.0}}}}};
        if (mod) s["magnitude"]["frequency"] = 0.8 * 299792458.0;
        json c; c["sources"] = json::array({s});
        auto r = driver::buildSources(c, nullptr);
        for (const auto& p : r) for (double t : {1.7, 2.4}) {
            double a = 0.2 - t - m;
            near("plane wave", p->eval(mfem::Vector({0.2, 0.1, 0.3}), t, E, Y), std::exp(-a * a / 0.72) * (mod ? std::cos(2 * M_PI * 0.8 * a) : 1.0), 1e-6);
        }
    }
    return bad;
}
'''
mk('b09', 'P09', [('src/driver/driver.cpp', 'ModulatedGaussian mg{ spread, mfem::Vector({projMean * dir / dir.Norml2()}), freq_norm };', 'ModulatedGaussian mg{ spread, mfem::Vector({projMean * dir}), freq_norm };')], DRV, HEAD + PW,
   'a modulated plane wave with a propagation vector that is not of length one', 'such a wave is delayed by the length of its propagation vector', only=only)

mk('b10', 'P10', [('src/driver/driver.cpp', 'if (case_data["probes"]["field"][p].contains("saves"))', 'if (case_data["probes"]["field"][p].contains("saves") && interval > 1)')], DRV, HEAD + r'''
#include "driver/driver.h"
using namespace maxwell;
int main() {
    for (double dt : {0.0, 0.01, 0.5}) for (int n : {1, 4, 9}) {
        json c; c["model"]["filename"] = "a.msh";
        c["solver_options"] = {{"time_step", dt}, {"final_time", 2.0}};
        c["probes"]["field"] = json::array({{{"field_type", "magnetic"}, {"polarization", "Z"}, {"position", {0.1, 0.2}}, {"saves", n}}});
        auto p = driver::buildProbes(c);
        near("probes", p.fieldProbes.size(), 1); near("saves", p.fieldProbes[0].getSaves(), n);
        near("direction", p.fieldProbes[0].getDirection(), Z); near("field", p.fieldProbes[0].getFieldType(), H);
    }
    return bad;
}
''', 'a field probe with a number of recordings in a case with the automatic time step', 'the requested number of recordings is forgotten, so the probe records every step', only=only)

mk('b11', 'P24', [('src/solver/SolverExtension.cpp', 'res.setOrder(sbcp.maxOrder());', 'res.setOrder(sbcp.layers.front().order);')], ['src/solver/SolverExtension.cpp', 'src/components/Material.cpp'], HEAD + r'''
#include "components/Material.h"
#include "components/Model.h"
#include "solver/SolverOptions.h"
namespace maxwell { SolverOptions buildSGBCSolverOptions(const SGBCProperties&); }
using namespace maxwell;
int main() {
    for (int a = 1; a <= 4; a++) for (int b = 1; b <= 4; b++) {
        SGBCProperties p;
        SGBCLayer l(Material(2.0, 1.0, 1.0), 0.1), m(Material(3.0, 1.0, 2.0), 0.2);
        l.order = a; m.order = b;
        p.layers.push_back(l); p.layers.push_back(m);
        near("order of the slab", buildSGBCSolverOptions(p).evolution.order, a > b ? a : b);
    }
    return bad;
}
''', 'a stack whose first layer is not the one of highest order', 'the slab is solved with the order of its first layer', only=only)

mk('b13', 'P01', [('src/math/Function.h', 'propagation_[d] = dir[d] / dir.Norml2();', 'propagation_[d] = dir[d] / std::max(1.0, dir.Norml2());')], SRC, HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    Gaussian g(0.4, mfem::Vector({0.1}));
    for (double k : {0.25, 1.0, 4.0}) {
        mfem::Vector p({0.0, 2.0, 0.0}), d({k, 0.0, 0.0});
        Planewave w(g, p, d, E);
        double a = 0.7 - 0.3 - 0.1;
        near("field", w.eval(mfem::Vector({0.7, 0.0, 0.0}), 0.3, E, Y), std::exp(-a * a / 0.32));
        near("other field", w.eval(mfem::Vector({0.7, 0.0, 0.0}), 0.3, H, Z), std::exp(-a * a / 0.32));
    }
    return bad;
}
''', 'a propagation vector shorter than one', 'a short propagation vector is not normalised', only=only)

mk('b14', 'P02', [('src/components/Sources.cpp', 'center_{ rhs.center_ }\n{}', 'center_{ rhs.polarization_.Size() == rhs.center_.Size() ? rhs.center_ : rhs.polarization_ }\n{}')], SRC, HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    for (int dim = 1; dim <= 3; dim++) {
        mfem::Vector z(dim), c(dim), r(dim);
        z = 0.0;
        double q = 0;
        for (int i = 0; i < dim; i++) { c[i] = 0.3 * (i + 1); r[i] = 0.1 * (i + 2); q += (r[i] - c[i]) * (r[i] - c[i]); }
        InitialField f(Gaussian(0.5, z, dim), H, mfem::Vector({0.0, 0.0, 1.0}), c);
        auto g = f.clone();
        near("initial field", f.eval(r, 0.0, H, 2), std::exp(-q / 0.5));
        near("its copy", g->eval(r, 0.0, H, 2), std::exp(-q / 0.5));
    }
    return bad;
}
''', 'a copied initial field in one or two dimensions', 'the copy is centred elsewhere', only=only)
