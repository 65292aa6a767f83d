import sys
from seed import mk
only = sys.argv[1:] if __name__ == "__main__" else ["none"]

HEAD = r'''
#include <cstdio>
#include <cmath>
#include <exception>
static int bad = 0;
static void near(const char* w, double a, double b, double tol = 1e-9) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%s: %.12g instead of %.12g\n", w, a, b); bad = 1; } }
static void yes(const char* w, bool c) { if (!c) { std::printf("%s does not hold\n", w); bad = 1; } }
'''

mk('b01', 'P01', [('src/math/Function.h', 'const auto cross = crossProduct(polarization_, propagation_);', 'const auto cross = crossProduct(propagation_, polarization_);')],
   ['src/components/Sources.cpp', 'src/components/Spherical.cpp'], HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    Gaussian g(0.4, mfem::Vector({0.1}));
    mfem::Vector p({0.0, 1.0, 0.0}), k({1.0, 0.0, 0.0});
    for (FieldType pf : {E, H}) {
        TotalField tf(Planewave(g, p, k, pf));
        mfem::Vector r({0.3, -0.2, 0.9});
        double e[3], h[3];
        for (int d = 0; d < 3; d++) { e[d] = tf.eval(r, 0.2, E, d); h[d] = tf.eval(r, 0.2, H, d); }
        double sx = e[1] * h[2] - e[2] * h[1];   // power flows along the propagation vector
        yes("power along propagation", sx > 1e-3);
    }
    return bad;
}
''', 'a plane wave declared by its magnetic polarisation, observed in the electric field', 'electric field of an H-polarised plane wave has the wrong sign: power flows against the propagation vector', only=only)

mk('b02', 'P02', [('src/components/Sources.cpp', 'for (int v{0}; v < center.Size(); v++){', 'for (int v{0}; v < center.Size() - (center.Size() > 2 ? 1 : 0); v++){')],
   ['src/components/Sources.cpp', 'src/components/Spherical.cpp'], HEAD + r'''
#include "components/Sources.h"
using namespace maxwell;
int main() {
    for (int dim = 1; dim <= 3; dim++) {
        mfem::Vector z(dim), c(dim), r(dim);
        z = 0.0;
        double q = 0;
        for (int i = 0; i < dim; i++) { c[i] = 0.25 * (i + 1); r[i] = 0.1 * (i + 2); q += (r[i] - c[i]) * (r[i] - c[i]); }
        Gaussian g(0.5, z, dim);
        InitialField f(g, E, mfem::Vector({0.0, 0.6, 0.8}), c);
        near("initial field", f.eval(r, 0.0, E, 2), 0.8 * std::exp(-q / (2 * 0.25)));
        near("other field", f.eval(r, 0.0, H, 2), 0.0);
    }
    return bad;
}
''', 'a three-dimensional position and a centre with a non-zero third coordinate', 'initial field is not centred in z in three dimensions', only=only)

mk('b03', 'P05', [('src/components/Spherical.cpp', 'phi = std::atan2(p[1], p[0]);', 'phi = (p[0] == 0.0) ? M_PI / 2.0 : std::atan2(p[1], p[0]);')],
   ['src/components/Sources.cpp', 'src/components/Spherical.cpp'], HEAD + r'''
#include "components/Spherical.h"
using namespace maxwell;
int main() {
    double xs[5] = {-1.0, -0.5, 0.0, 0.5, 2.0};
    for (double x : xs) for (double y : xs) for (double z : xs) {
        if (x == 0 && y == 0) continue;
        auto c = SphericalVector(mfem::Vector({x, y, z})).convertToCartesian();
        near("x", c[0], x); near("y", c[1], y); near("z", c[2], z);
    }
    return bad;
}
''', 'a point in the plane x = 0 with negative y', 'round trip through spherical coordinates mirrors points with x = 0, y < 0', only=only)

mk('b04', 'P06', [('src/components/Material.cpp', 'if (sigma < 0.0) {', 'if (sigma < -1e-12) {')],
   ['src/components/Material.cpp'], HEAD + r'''
#include "components/Material.h"
using namespace maxwell;
static bool refused(double e, double m, double s) { try { Material x(e, m, s); } catch (const std::exception&) { return true; } return false; }
int main() {
    for (double s : {-1.0, -1e-3, -1e-13, -1e-200}) yes("negative conductivity refused", refused(1, 1, s));
    yes("lossless accepted", !refused(1, 1, 0.0));
    yes("lossy accepted", !refused(2, 3, 1e-13));
    return bad;
}
''', 'a conductivity that is negative but tiny', 'materials with gain are accepted', only=only)
