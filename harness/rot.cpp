// Rotation matrices and vectors (C31)
#include "common.h"
#include "fakefits.h"
#include "ls_rotmatrix.h"
#include "ls_vec3.h"
#include "ls_constants.h"
using namespace levels;
struct M3 { double e[3][3]; };
static M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.e[i][j] = 0; for (int k = 0; k < 3; ++k) r.e[i][j] += a.e[i][k] * b.e[k][j]; } return r; }
static M3 rz(double a) { double c = std::cos(a), s = std::sin(a); return M3{{{c, -s, 0}, {s, c, 0}, {0, 0, 1}}}; }
static M3 ry(double a) { double c = std::cos(a), s = std::sin(a); return M3{{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}}; }
static M3 of(const rotmatrix &m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.e[i][j] = m.entry[i][j]; return r; }
static rotmatrix to(const M3 &m) { return rotmatrix(m.e[0][0], m.e[0][1], m.e[0][2], m.e[1][0], m.e[1][1], m.e[1][2], m.e[2][0], m.e[2][1], m.e[2][2]); }
static void near(const rotmatrix &m, const M3 &w, const char *msg, double tol = 1e-9) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_assert_near(m.entry[i][j], w.e[i][j], tol, msg); }
static M3 sym(const char *pre) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.e[i][j] = vp_real(Name((std::string(pre) + "%ld%ld").c_str(), i, j), -3, 3); return m; }
static vec3 symv(const char *pre) { double x = vp_real(Name((std::string(pre) + "x").c_str()), -3, 3), y = vp_real(Name((std::string(pre) + "y").c_str()), -3, 3), z = vp_real(Name((std::string(pre) + "z").c_str()), -3, 3); return vec3(x, y, z); }
static void nearv(const vec3 &a, double x, double y, double z, const char *msg) { vp_assert_near(a.x, x, 1e-9, msg); vp_assert_near(a.y, y, 1e-9, msg); vp_assert_near(a.z, z, 1e-9, msg); }
extern "C" void algebra_main(void) {
    M3 a = sym("a"), b = sym("b"); rotmatrix A = to(a), B = to(b), C, D, I; near(A, a, "constructor"); near(A * B, mul(a, b), "product"); matmult(A, B, C); near(C, mul(a, b), "matmult"); TransposeTimes(A, B, D); M3 t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.e[i][j] = a.e[j][i]; near(D, mul(t, b), "TransposeTimes"); near(A, a, "arguments are kept"); near(B, b, "arguments are kept");
    D = A; D.Transpose(); near(D, t, "Transpose"); I.SetToIdentity(); near(I, M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, "identity"); I.SetToZero(); near(I, M3{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}, "zero");
    vec3 v = symv("v"), w = symv("w"), u, x = A.Transform(v); A.Transform(v, u); double r[3], vv[3] = {v.x, v.y, v.z}; for (int i = 0; i < 3; ++i) { r[i] = 0; for (int k = 0; k < 3; ++k) r[i] += a.e[i][k] * vv[k]; } nearv(x, r[0], r[1], r[2], "Transform"); nearv(u, r[0], r[1], r[2], "Transform");
    rotmatrix E(v, w, u); near(E, M3{{{v.x, w.x, r[0]}, {v.y, w.y, r[1]}, {v.z, w.z, r[2]}}}, "matrix of column vectors");
    double f = vp_real("f", -4, 4); vp_assert_near(dotprod(v, w), v.x * w.x + v.y * w.y + v.z * w.z, 1e-9, "dotprod"); vec3 c = crossprod(v, w); nearv(c, v.y * w.z - v.z * w.y, v.z * w.x - v.x * w.z, v.x * w.y - v.y * w.x, "crossprod");
    nearv(v + w, v.x + w.x, v.y + w.y, v.z + w.z, "+"); nearv(v - w, v.x - w.x, v.y - w.y, v.z - w.z, "-"); nearv(-v, -v.x, -v.y, -v.z, "negation"); nearv(v * f, v.x * f, v.y * f, v.z * f, "scaling"); vec3 s = v; s += w; nearv(s, v.x + w.x, v.y + w.y, v.z + w.z, "+="); s -= w; nearv(s, v.x, v.y, v.z, "-="); s *= f; nearv(s, v.x * f, v.y * f, v.z * f, "*="); s.Set(f, 2, 3); nearv(s, f, 2, 3, "Set"); s = v; s.Flip(); nearv(s, -v.x, -v.y, -v.z, "Flip");
    vp_assert_near(v.SquaredLength(), v.x * v.x + v.y * v.y + v.z * v.z, 1e-9, "SquaredLength"); double l = v.Length(); vp_assert(l >= 0, "Length"); vp_assert_near(l * l, v.x * v.x + v.y * v.y + v.z * v.z, 1e-6, "Length"); vp_reach("done");
}
extern "C" void vec_main(void) {
    vec3 v = symv("v"); double f = vp_real("f", 0.25, 4); if (vp_choose("neg", 0, 1)) f = -f; vec3 d = v / f; nearv(vec3(d.x * f, d.y * f, d.z * f), v.x, v.y, v.z, "division"); vp_assume(v.x * v.x + v.y * v.y + v.z * v.z >= 0.01);
    vec3 n = v.Norm(), m = v; m.Normalize(); double l = v.Length(); nearv(vec3(n.x * l, n.y * l, n.z * l), v.x, v.y, v.z, "Norm"); nearv(vec3(m.x * l, m.y * l, m.z * l), v.x, v.y, v.z, "Normalize");
    double z = vp_real("z", -1, 1), phi = vp_angle("phi", -7, 7, 1); vec3 p; p.set_z_phi(z, phi); double c = std::cos(phi), s = std::sin(phi); vp_assert_near(p.z, z, 1e-9, "set_z_phi"); vp_assert_near(p.x * p.x + p.y * p.y, 1 - z * z, 1e-6, "set_z_phi has unit length"); vp_assert_near(p.x * s, p.y * c, 1e-6, "set_z_phi has the azimuth"); vp_assert(p.x * c + p.y * s >= -1e-9, "set_z_phi has the azimuth"); vp_reach("done");
}
extern "C" void euler_main(void) { // first gamma about z, then beta about y, then alpha about z
    double a = vp_angle("alpha", -7, 7, 1), b = vp_angle("beta", -7, 7, 1), g = vp_angle("gamma", -7, 7, 1); rotmatrix m; m.Make_CPAC_Euler_Matrix(a, b, g); near(m, mul(rz(a), mul(ry(b), rz(g))), "Euler matrix"); vp_reach("done");
}
// the angles extracted from a rotation matrix make the same matrix again
static void trip(const M3 &w) {
    rotmatrix m = to(w), n; double a = 9, b = 9, g = 9; m.Extract_CPAC_Euler_Angles(a, b, g); vp_assert(b >= 0 && b <= 3.1415926536 && a >= -3.1415926536 && a <= 3.1415926536 && g >= -3.1415926536 && g <= 3.1415926536, "range of the angles");
    n.Make_CPAC_Euler_Matrix(a, b, g); near(n, w, "angles and matrix describe the same rotation", 1e-5);
}
extern "C" void trip_main(void) {
    int k = int(vp_param("MODE", 0)); double a = 0, b = 0, g = 0;
    static const double t[] = {0, 3.141592653589793, 0.3, 1.5707963267948966, 2.8, 5e-6, -1.1, 1e-7, 3.1415926};
    static const double q[] = {0, 0.4, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, -2.3, 3.0, -0.7853981633974483};
    switch (k) { // one angle symbolic
    case 0: a = vp_angle("alpha", -3.2, 3.2, 1); b = t[vp_choose("b", 0, 8)]; g = q[vp_choose("g", 0, 7)]; break;
    case 1: g = vp_angle("gamma", -3.2, 3.2, 1); b = t[vp_choose("b", 0, 6)]; a = q[vp_choose("a", 0, 7)]; break;
    case 3: a = vp_angle("alpha", -3.2, 3.2, 1); b = vp_angle("beta", vp_param("LO", 100) * 1e-3, vp_param("HI", 3000) * 1e-3, 1); g = vp_angle("gamma", -3.2, 3.2, 1); break;
    case 4: a = q[vp_choose("a", 0, 7)]; b = t[vp_choose("b", 0, 8)]; g = q[vp_choose("g", 0, 7)]; break;
    }
    trip(mul(rz(a), mul(ry(b), rz(g)))); if (k == 4 && (b == 0 || b == 3.141592653589793)) { double x, y, z; to(mul(rz(a), mul(ry(b), rz(g)))).Extract_CPAC_Euler_Angles(x, y, z); vp_assert(x == 0, "alpha is 0 where it is ambiguous"); } vp_reach("done");
}
// rotation about an axis: the axis is fixed, a perpendicular vector turns by the angle
static const double ax[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.6, 0.8, 0}, {0, -0.6, 0.8}, {-0.8, 0, -0.6}, {0.5773502691896258, 0.5773502691896258, 0.5773502691896258}, {0, 0.7071067811865476, 0.7071067811865476}, {0.7071067811865476, 0, -0.7071067811865476}, {0.7071067811865476, 0.7071067811865476, 0}, {0.48, -0.6, 0.64}, {0, 0, -1}, {-1, 0, 0}, {-0.5773502691896258, 0.5773502691896258, 0.5773502691896258}, {0.36, 0.48, 0.8}, {0.8, 0.36, 0.48}};
enum { NAX = sizeof ax / sizeof ax[0] };
static M3 rodrigues(double x, double y, double z, double c, double s) { double o = 1 - c; return M3{{{c + x * x * o, x * y * o - z * s, x * z * o + y * s}, {x * y * o + z * s, c + y * y * o, y * z * o - x * s}, {x * z * o - y * s, y * z * o + x * s, c + z * z * o}}}; }
extern "C" void axis_main(void) {
    vec3 n = symv("n"); double an = vp_angle("angle", -7, 7, 1), c = std::cos(an), s = std::sin(an); rotmatrix m; m.Make_Axis_Rotation_Transform(n, an); near(m, rodrigues(n.x, n.y, n.z, c, s), "rotation about an axis"); vp_reach("done"); // (identity in the components; unit vectors are a special case)
}
extern "C" void toaxis_main(void) {
    const double *x = ax[vp_choose("axis", 0, NAX - 1)]; double an; switch (vp_choose("kind", 0, 2)) { case 0: an = vp_angle("angle", 0.001, 3.1, 1); break; case 1: an = vp_angle("angle", -3.1, -0.001, 1); break; default: { static const double q[] = {0, 1e-3, 3.14, 1.5707963267948966, 2.5, -3, 6.5}; an = q[vp_choose("q", 0, 6)]; } }
    M3 w = rodrigues(x[0], x[1], x[2], std::cos(an), std::sin(an)); vec3 v; double t; to(w).toAxisAngle(v, t); vp_assert_near(v.x * v.x + v.y * v.y + v.z * v.z, 1, 1e-6, "the axis has unit length"); vp_assert(t >= 0 && t <= 3.1415926536, "range of the angle"); near(to(rodrigues(v.x, v.y, v.z, std::cos(t), std::sin(t))), w, "axis and angle describe the same rotation", 1e-5); vp_reach("done");
}
// half turns 2 a a^T - 1 (exactly symmetric matrices), all unit vectors a
extern "C" void half_main(void) {
    vec3 a; int k = int(vp_choose("axis", 0, vp_param("SYM", 0) ? 0 : NAX - 1));
    if (vp_param("SYM", 0)) { double z = vp_real("z", -1, 1); int p = int(vp_choose("plane", 0, 2)); double r = std::sqrt(1 - z * z); if (vp_choose("neg", 0, 1)) r = -r; a = p == 0 ? vec3(r, 0, z) : p == 1 ? vec3(0, z, r) : vec3(z, r, 0); } else a = vec3(ax[k][0], ax[k][1], ax[k][2]);
    double e[3] = {a.x, a.y, a.z}; M3 w; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w.e[i][j] = 2 * e[i < j ? i : j] * e[i < j ? j : i] - (i == j); vec3 v; double t; to(w).toAxisAngle(v, t);
    vp_assert_near(t, 3.141592653589793, 1e-6, "half turn"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double f[3] = {v.x, v.y, v.z}; vp_assert_near(f[i] * f[j], e[i] * e[j], 1e-5, "axis of a half turn"); } vp_reach("done");
}
