// Problems: materials, initial states and geometries, built from a case line.
// Formulas here are the harness's own and do not use the solver.
#pragma once
#include "rt.h"

#include <cmath>
#include <map>
#include <sstream>
#include <stdexcept>

#include "etc/types.h"
#include "system/energy/mg.h"
#include "system/objects.h"

struct Case {
  std::map<std::string, std::string> m;
  static Case parse(const std::string &line) {
    Case c;
    std::istringstream in(line);
    std::string tok;
    while (in >> tok) {
      size_t k = tok.find('=');
      if (k != std::string::npos)
        c.m[tok.substr(0, k)] = tok.substr(k + 1);
    }
    return c;
  }
  bool has(const std::string &k) const { return m.count(k) > 0; }
  std::string s(const std::string &k, const std::string &d = "") const {
    auto i = m.find(k);
    return i == m.end() ? d : i->second;
  }
  long i(const std::string &k, long d = 0) const {
    auto i = m.find(k);
    return i == m.end() ? d : strtol(i->second.c_str(), nullptr, 10);
  }
  double d(const std::string &k, double d = 0) const {
    auto i = m.find(k);
    return i == m.end() ? d : strtod(i->second.c_str(), nullptr);
  }
  std::vector<std::string> list(const std::string &k) const {
    std::vector<std::string> r;
    std::string v = s(k), t;
    std::istringstream in(v);
    while (std::getline(in, t, ','))
      if (!t.empty())
        r.push_back(t);
    return r;
  }
  std::vector<int> ints(const std::string &k) const {
    std::vector<int> r;
    for (auto &t : list(k))
      r.push_back(atoi(t.c_str()));
    return r;
  }
  Case sub(const std::string &prefix) const { // keys "prefix.x" as "x"
    Case c;
    for (auto &kv : m)
      if (kv.first.compare(0, prefix.size() + 1, prefix + ".") == 0)
        c.m[kv.first.substr(prefix.size() + 1)] = kv.second;
    return c;
  }
};

// ------------------------------------------------------------- materials
enum { EOS_VAC = -1 };
struct Material {
  std::string name;
  Par par;
  double rho, p; // reference state
};

inline Par zero_par() {
  Par p = Par();
  p.REACTION = -1;
  p.δp.setZero();
  return p;
}

// own equations of state: reference curves, Grueneisen coefficient
inline void eos_curves(const Params &m, double r, double &G, double &pr, double &er) {
  double r0 = m.ρ0, v = r0 / r;
  switch (m.EOS) {
  case STIFFENED_GAS: // stiffened gas
    G = m.γ - 1;
    pr = -m.pINF;
    er = m.pINF / r;
    break;
  case SHOCK_MG: // shock Mie-Grueneisen
    G = m.Γ0 * r0 / r;
    if (r > r0) {
      double x = 1 / r0 - 1 / r, y = 1 / r0 - m.s * x;
      pr = m.c02 * x / (y * y);
      er = 0.5 * pr * x;
    } else {
      pr = m.c02 * (r - r0);
      er = 0;
    }
    break;
  case GODUNOV_ROMENSKI: { // Godunov-Romenski
    double t = std::pow(r / r0, m.α);
    G = m.γ;
    pr = m.c02 * r / m.α * (t - 1) * t;
    er = m.c02 / (2 * m.α * m.α) * (t - 1) * (t - 1);
    break;
  }
  case JWL: // Jones-Wilkins-Lee
    G = m.Γ0;
    pr = m.A * std::exp(-m.R1 * v) + m.B * std::exp(-m.R2 * v);
    er = m.A / (r0 * m.R1) * std::exp(-m.R1 * v) + m.B / (r0 * m.R2) * std::exp(-m.R2 * v);
    break;
  case COCHRAN_CHAN: // Cochran-Chan
    G = m.Γ0;
    pr = m.A * std::pow(v, -m.R1) - m.B * std::pow(v, -m.R2);
    er = -m.A / (r0 * (1 - m.R1)) * (std::pow(v, 1 - m.R1) - 1) +
         m.B / (r0 * (1 - m.R2)) * (std::pow(v, 1 - m.R2) - 1);
    break;
  default:
    throw std::runtime_error("no equation of state");
  }
}
inline double own_e1(const Params &m, double r, double p) {
  double G, pr, er;
  eos_curves(m, r, G, pr, er);
  return er + (p - pr) / (r * G);
}
inline double own_p(const Params &m, double r, double e) {
  double G, pr, er;
  eos_curves(m, r, G, pr, er);
  return (e - er) * r * G + pr;
}
inline double own_cs2(const Params &m, double r) { return m.b02 * std::pow(r / m.ρ0, m.β); }
inline double own_e2(const Params &m, double r, const Eigen::Matrix3d &A) {
  double G_, pr, er;
  eos_curves(m, r, G_, pr, er);
  Eigen::Matrix3d G = A.transpose() * A;
  Eigen::Matrix3d D = G - G.trace() / 3. * Eigen::Matrix3d::Identity();
  return (1 - m.β / G_) * own_cs2(m, r) / 4 * D.squaredNorm();
}
inline double own_c0(const Params &m, double r, double p) {
  double h = 1e-5 * r, k = 1e-5 * (std::abs(p) + m.c02 * m.ρ0 + m.pINF + 1e-3);
  double er = (own_e1(m, r + h, p) - own_e1(m, r - h, p)) / (2 * h);
  double ep = (own_e1(m, r, p + k) - own_e1(m, r, p - k)) / (2 * k);
  return std::sqrt((p / (r * r) - er) / ep);
}
inline double own_speed(const Params &m, double r, double p) {
  double c = own_c0(m, r, p);
  return std::sqrt(c * c + 4. / 3 * own_cs2(m, r));
}

inline Material material(const std::string &name) {
  Material r;
  r.name = name;
  r.par = zero_par();
  Par &m = r.par;
  m.ρ0 = 1;
  m.cv = 2.5;
  m.n = 1;
  r.rho = 1;
  r.p = 1;
  auto sg = [&](double g, double pinf) {
    m.EOS = STIFFENED_GAS;
    m.γ = g;
    m.pINF = pinf;
  };
  auto gr = [&](double c0, double al, double be, double ga) {
    m.EOS = GODUNOV_ROMENSKI;
    m.c02 = c0 * c0;
    m.α = al;
    m.β = be;
    m.γ = ga;
    r.p = 0.1;
  };
  if (name == "vac") {
    m = zero_par();
    m.EOS = EOS_VAC;
    r.rho = r.p = 0;
  } else if (name == "gas") { // nearly inviscid gas
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1e-4;
  } else if (name == "air") { // viscous gas
    sg(1.4, 0);
    m.b02 = 0.64;
    m.μ = 1e-2;
  } else if (name == "honey") { // very viscous
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1.;
  } else if (name == "water") {
    sg(2.8, 5);
    m.ρ0 = 2;
    r.rho = 2;
    m.b02 = 0.5;
    m.μ = 5e-3;
  } else if (name == "power") { // shear-thinning
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1e-2;
    m.n = 0.7;
    m.POWER_LAW = true;
  } else if (name == "thick") { // shear-thickening
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1e-2;
    m.n = 1.3;
    m.POWER_LAW = true;
  } else if (name == "mud") { // Bingham
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1e-2;
    m.σY = 1e-3;
    m.BINGHAM = true;
  } else if (name == "clay") { // Bingham, hardly yielding
    sg(1.4, 0);
    m.b02 = 1;
    m.μ = 1e-2;
    m.σY = 5e-2;
    m.BINGHAM = true;
  } else if (name == "rubber") { // elastic
    gr(2., 1., 2.5, 2.);
    m.b02 = 1;
    m.SOLID = true;
  } else if (name == "jelly") { // elastic, shear modulus independent of density
    gr(1.5, 1.2, 0., 1.8);
    m.b02 = 0.3;
    m.SOLID = true;
  } else if (name == "copper") { // elasto-plastic
    gr(2., 1., 3., 2.);
    m.ρ0 = 4;
    r.rho = 4;
    m.b02 = 1;
    m.σY = 0.05;
    m.τ0 = 0.1;
    m.n = 4;
    m.SOLID = true;
    m.POWER_LAW = true;
  } else if (name == "alu") { // elasto-plastic with a shock equation of state
    m.EOS = SHOCK_MG;
    m.Γ0 = 2;
    m.c02 = 4;
    m.s = 1.4;
    m.ρ0 = 2;
    r.rho = 2;
    r.p = 0.2;
    m.b02 = 0.8;
    m.σY = 0.05;
    m.τ0 = 0.1;
    m.n = 3;
    m.SOLID = true;
    m.POWER_LAW = true;
  } else if (name == "jwl") {
    m.EOS = JWL;
    m.Γ0 = 0.4;
    m.A = 6;
    m.B = 0.2;
    m.R1 = 4;
    m.R2 = 1.2;
    m.b02 = 0.1;
    m.μ = 1e-3;
  } else if (name == "cc") {
    m.EOS = COCHRAN_CHAN;
    m.Γ0 = 0.9;
    m.A = 1.2;
    m.B = 1;
    m.R1 = 4.5;
    m.R2 = 1.4;
    m.b02 = 0.1;
    m.μ = 1e-3;
  } else
    throw std::runtime_error("unknown material " + name);
  return r;
}

// ------------------------------------------------------------- problems
struct Problem {
  int ndim = 1, nx = 1, ny = 1, ncell = 1;
  iVec nX;
  aVec dX;
  Vec u;
  Eigen::Vector3d wind = Eigen::Vector3d::Zero();
  double tf = 0, cfl = 0.5, ctol = 1e9, cmax = 0, dtref = 0;
  iVec bc;
  bool split = true, half = false, stiff = false;
  int flux = 2;
  std::vector<Material> mats;
  std::vector<Par> MPs;
  int at(int i, int j) const { return (i * ny + j) * V; }
};

struct Field { // smooth periodic function, or noise, of zero mean and size one
  double a[3], ph[3];
  int kx[3], ky[3];
  Field() {}
  Field(sim::Rng &r, bool x, bool y) {
    for (int m = 0; m < 3; m++) {
      a[m] = r.in(-1, 1) / 3;
      ph[m] = r.in(0, 2 * M_PI);
      kx[m] = x ? 1 + (int)r.below(2) : 0;
      ky[m] = y ? (int)r.below(x ? 3 : 2) + (x ? 0 : 1) : 0;
      if (r.below(2))
        ky[m] = -ky[m];
    }
  }
  double operator()(double x, double y) const {
    double s = 0;
    for (int m = 0; m < 3; m++)
      s += a[m] * std::sin(2 * M_PI * (kx[m] * x + ky[m] * y) + ph[m]);
    return s;
  }
};

inline int own_material(const double *q) {
  int r = 0;
  for (int i = V - LSET; i < V; i++)
    if (q[i] >= 0)
      r++;
  return r;
}

inline void set_cell(double *q, const Material &m, double rho, double p, const double *v,
                     const Eigen::Matrix3d &A, double lam) {
  q[0] = rho;
  double E = own_e1(m.par, rho, p) + own_e2(m.par, rho, A) +
             (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2;
  if (MULTI && m.par.REACTION > -1)
    E += m.par.Qc * (lam - 1);
  q[1] = rho * E;
  for (int k = 0; k < 3; k++)
    q[2 + k] = rho * v[k];
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++)
      q[5 + 3 * a + b] = A(a, b);
  if (MULTI)
    q[mV] = rho * lam;
}

inline double geometry(const Case &c, const Problem &p, int which, double x, double y,
                       sim::Rng r0) {
  // level set in units of length: negative inside the first material
  std::string g = c.s(which ? "geom2" : "geom", "layer");
  double L = p.ndim == 2 ? std::min(p.nx * p.dX(0), p.ny * p.dX(1)) : p.nx * p.dX(0);
  double W = p.nx * p.dX(0), H = p.ndim == 2 ? p.ny * p.dX(1) : 1;
  double h = p.dX(0);
  if (p.ndim == 1)
    y = H / 2;
  auto slab = [&](double lo, double hi, double z) { return std::max(lo - z, z - hi); };
  auto box = [&](double x0, double x1, double y0, double y1) {
    return std::max(slab(x0, x1, x), p.ndim == 2 ? slab(y0, y1, y) : -1e9);
  };
  sim::Rng r = r0;
  if (g == "layer")
    return x - W * r.in(0.25, 0.75);
  if (g == "rlayer")
    return W * r.in(0.25, 0.75) - x;
  if (g == "ylayer")
    return (p.ndim == 2 ? y - H * r.in(0.25, 0.75) : x - W * r.in(0.25, 0.75));
  if (g == "oblique") {
    double th = r.in(0, 2 * M_PI);
    return (x - W * r.in(0.35, 0.65)) * std::cos(th) + (y - H * r.in(0.35, 0.65)) * std::sin(th);
  }
  if (g == "thin") { // a layer of one or two cells
    double a = W * r.in(0.2, 0.7);
    return -slab(a, a + h * r.in(1, 2.5), x);
  }
  if (g == "ithin") {
    double a = W * r.in(0.2, 0.7);
    return slab(a, a + h * r.in(1, 2.5), x);
  }
  if (g == "disc") {
    double cx = W * r.in(0.3, 0.7), cy = H * r.in(0.3, 0.7), R = L * r.in(0.15, 0.35);
    double d = p.ndim == 2 ? std::hypot(x - cx, y - cy) : std::abs(x - cx);
    return r.below(2) ? d - R : R - d;
  }
  if (g == "rect") {
    double x0 = W * r.in(0.15, 0.4), y0 = H * r.in(0.15, 0.4);
    double d = box(x0, x0 + W * r.in(0.2, 0.4), y0, y0 + H * r.in(0.2, 0.4));
    return r.below(2) ? d : -d;
  }
  if (g == "blocks") {
    double a = box(W * 0.1, W * r.in(0.3, 0.45), H * r.in(0.05, 0.3), H * r.in(0.5, 0.9));
    double b = box(W * r.in(0.55, 0.7), W * 0.9, H * r.in(0.05, 0.3), H * r.in(0.5, 0.9));
    return std::min(a, b);
  }
  if (g == "corner") {
    double cx = r.below(2) ? W : 0, cy = r.below(2) ? H : 0, R = L * r.in(0.2, 0.6);
    double d = p.ndim == 2 ? std::hypot(x - cx, y - cy) : std::abs(x - cx);
    return r.below(2) ? d - R : R - d;
  }
  if (g == "cell") { // a single cell
    int i = (int)r.below(p.nx), j = (int)r.below(p.ny);
    double d = std::max(std::abs(x / p.dX(0) - i - 0.5),
                        p.ndim == 2 ? std::abs(y / p.dX(1) - j - 0.5) : 0.) -
               0.5;
    return d * h * (r.below(2) ? 1 : -1);
  }
  if (g == "stripes")
    return -h * 2.5 * std::sin(M_PI * (x + r.in(0, W)) / (h * r.in(2.2, 4)));
  if (g == "othin") { // an oblique layer of about a cell
    double th = r.in(0, 2 * M_PI);
    double d = (x - W * r.in(0.3, 0.7)) * std::cos(th) + (y - H * r.in(0.3, 0.7)) * std::sin(th);
    double w = h * r.in(0.4, 1.2);
    return r.below(2) ? std::abs(d) - w : w - std::abs(d);
  }
  if (g == "spots") { // ragged
    double f = 0;
    for (int k = 0; k < 3; k++) {
      double th = r.in(0, 2 * M_PI), l = h * r.in(2.2, 7);
      f += std::sin(2 * M_PI * (x * std::cos(th) + y * std::sin(th)) / l + r.in(0, 6.3)) / 3;
    }
    return h * 1.5 * (f - r.in(-0.4, 0.4));
  }
  if (g == "edge") // one row of cells at the edge of the domain
    return r.below(2) ? x - h * r.in(0.8, 1.4) : (W - h * r.in(0.8, 1.4)) - x;
  if (g == "none")
    return -1;
  throw std::runtime_error("unknown geometry " + g);
}

inline Problem make_problem(const Case &c) {
  Problem p;
  p.nx = (int)c.i("nx", 8);
  p.ny = (int)c.i("ny", 0);
  p.ndim = p.ny > 0 ? 2 : 1;
  if (p.ndim == 1)
    p.ny = 1;
  p.ncell = p.nx * p.ny;
  p.nX.resize(p.ndim);
  p.dX.resize(p.ndim);
  double h = c.d("h", 0.1);
  p.nX(0) = p.nx;
  p.dX(0) = h;
  if (p.ndim == 2) {
    p.nX(1) = p.ny;
    p.dX(1) = h * c.d("aspect", 1);
  }
  p.bc.resize(2 * p.ndim);
  auto b = c.ints("bc");
  for (int k = 0; k < 2 * p.ndim; k++)
    p.bc(k) = k < (int)b.size() ? b[k] : 0;
  p.split = c.i("split", 1);
  p.half = c.i("half", 0);
  p.stiff = c.i("stiff", 0);
  p.flux = (int)c.i("flux", 2);
  p.cfl = c.d("cfl", 0.5);
  p.ctol = c.d("ctol", 1e9);

  auto names = c.list("mats");
  if (names.empty())
    names.push_back("air");
  for (auto &n : names) {
    p.mats.push_back(material(n));
    Par &m = p.mats.back().par;
    if (n != "vac") {
      std::string rx = c.s("react", "");
      if (MULTI && !rx.empty()) {
        m.Qc = c.d("qc", 0.2);
        m.REACTION = rx == "d" ? 0 : 1;
        m.Kc = c.d("kc", 3);
        m.Ti = c.d("ti", 0.1);
        m.Bc = c.d("kc", 3);
        m.Ea = 0.2;
        m.Rc = 1;
      }
      if (c.has("body"))
        m.δp << c.d("body"), 0.5 * c.d("body"), 0;
    }
    p.MPs.push_back(m);
  }
  int nmat = (int)p.mats.size();

  sim::Rng rg(c.i("gseed", 1) * 77 + 5);
  sim::Rng rg2(c.i("gseed", 1) * 79 + 11);
  sim::Rng r(c.i("icseed", 1));
  std::string ic = c.s("ic", "smooth");
  double amp = c.d("amp", 0.1), aamp = c.d("aamp", amp);
  int dir = (int)c.i("dir", -1); // planar: the only direction of variation
  double drift = c.d("drift", 0);
  double dv[3] = {r.in(-1, 1), r.in(-1, 1), r.in(-1, 1)};
  Eigen::Matrix3d R0 = Eigen::Matrix3d::Identity(); // rotation of the reference distortion
  if (c.i("rot", 0)) {
    Eigen::Vector3d ax(r.in(-1, 1), r.in(-1, 1), r.in(-1, 1));
    R0 = Eigen::AngleAxisd(r.in(0, 3), ax.normalized()).toRotationMatrix();
  }
  Eigen::Matrix3d S0 = Eigen::Matrix3d::Zero(); // strain shared by all cells
  if (c.d("strain", 0) != 0) {
    sim::Rng rs(c.i("icseed", 1) * 31 + 7);
    for (int k = 0; k < 9; k++)
      S0(k / 3, k % 3) = c.d("strain") * rs.in(-1, 1);
    if (c.i("uniaxial", 0)) {
      S0.setZero();
      S0(rs.below(3), rs.below(3)) = c.d("strain") * (rs.below(2) ? 1 : -1);
    }
  }
  Field f[16];
  for (auto &x : f)
    x = Field(r, p.ndim == 1 || dir != 1, p.ndim == 2 && dir != 0);
  if (c.i("long", 0)) // only waves as long as the grid
    for (auto &x : f)
      for (int m = 0; m < 3; m++) {
        x.kx[m] = std::min(x.kx[m], 1);
        x.ky[m] = std::max(-1, std::min(x.ky[m], 1));
      }
  double side[4][16];
  for (auto &a : side)
    for (double &x : a)
      x = r.in(-1, 1);
  double cut = r.in(0.3, 0.7), cuty = r.in(0.3, 0.7);
  double rad = c.d("rad", 3);
  uint64_t nseed = r.next();

  p.u.resize(p.ncell * V);
  p.u.setZero();
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      double x = (i + 0.5) / p.nx, y = (j + 0.5) / p.ny;
      double X = (i + 0.5) * p.dX(0), Y = p.ndim == 2 ? (j + 0.5) * p.dX(1) : 0;
      double *q = p.u.data() + p.at(i, j);
      double φ1 = -1, φ2 = -1;
      if (nmat > 1)
        φ1 = geometry(c, p, 0, X, Y, rg);
      if (nmat > 2)
        φ2 = geometry(c, p, 1, X, Y, rg2);
      if (nmat > 2)
        φ2 = std::min(φ1, φ2); // nested
      if (nmat == 1 && c.has("lset"))
        φ1 = φ2 = c.d("lset");
      for (int k = V - LSET; k < V; k++)
        q[k] = -1;
      if (LSET > 0)
        q[V - LSET] = φ1;
      if (LSET > 1)
        q[V - LSET + 1] = φ2;
      int mi = own_material(q);
      if (mi >= nmat)
        throw std::runtime_error("bad geometry");
      const Material &m = p.mats[mi];
      if (m.par.EOS == EOS_VAC)
        continue;
      double g[16];
      if (ic == "uniform")
        for (double &z : g)
          z = 0;
      else if (ic == "smooth")
        for (int k = 0; k < 16; k++)
          g[k] = f[k](x, y);
      else if (ic == "riemann") {
        int s = (dir == 1 ? y > cut : x > cut) ? 1 : 0;
        if (p.ndim == 2 && dir < 0 && y > cuty)
          s += 2;
        for (int k = 0; k < 16; k++)
          g[k] = side[s][k];
      } else if (ic == "noise") {
        uint64_t id = dir == 0 ? i : dir == 1 ? j : i * p.ny + j;
        sim::Rng rr(nseed ^ (id * 0x9E3779B9ull + 17));
        for (double &z : g)
          z = rr.in(-1, 1);
      } else if (ic == "bump") {
        // nothing but the reference state outside the middle of the grid
        double dx = std::abs(i - (p.nx - 1) / 2. - c.d("shiftx", 0)),
               dy = p.ndim == 2 ? std::abs(j - (p.ny - 1) / 2. - c.d("shifty", 0)) : 0;
        double d = dir == 0 ? dx : dir == 1 ? dy : std::max(dx, dy);
        double w = d < rad ? std::pow(1 - d * d / (rad * rad), 2) : 0;
        for (int k = 0; k < 16; k++)
          g[k] = w == 0 ? 0 : w * 2 * side[0][k];
      } else
        throw std::runtime_error("unknown initial state " + ic);

      double cr = own_speed(m.par, m.rho, m.p);
      double rho = m.rho * c.d("dense", 1) * (1 + amp * g[0] * c.d("arho", 1));
      double pr = m.p + amp * std::min(m.p * 2, m.rho * cr * cr) * 0.7 * g[1];
      double v[3];
      for (int k = 0; k < 3; k++)
        v[k] = cr * (drift * dv[k] + amp * c.d("avel", 1) * g[2 + k]);
      if (c.has("pall")) // in mechanical equilibrium
        pr = c.d("pall");
      for (int k = 0; k < 3 && c.has("wind"); k++) // the same for all materials
        v[k] = c.d("wind") * dv[k];
      if (c.has("push")) // materials moving towards or away from each other
        v[0] += c.d("push") * cr * (mi == 0 ? 1 : -1);
      Eigen::Matrix3d M;
      for (int k = 0; k < 9; k++)
        M(k / 3, k % 3) = aamp * g[5 + k];
      Eigen::Matrix3d A = (Eigen::Matrix3d::Identity() + M + S0) * R0;
      A *= std::cbrt(rho / m.par.ρ0 / A.determinant());
      double lam = 0.5 + c.d("alam", 0) * g[14];
      if (c.has("lam"))
        lam = c.d("lam") + c.d("alam", 0) * g[14];
      lam = std::min(1., std::max(0., lam));
      set_cell(q, m, rho, pr, v, A, lam);
      double vm = std::max(std::abs(v[0]), p.ndim == 2 ? std::abs(v[1]) : 0.);
      p.cmax = std::max(p.cmax, vm + own_speed(m.par, rho, pr));
    }
  double s = 0;
  for (int d = 0; d < p.ndim; d++)
    s += p.cmax / p.dX(d);
  if (!(s > 0))
    s = 1;
  p.dtref = p.cfl / s;
  for (int k = 0; k < 3; k++)
    p.wind(k) = c.d("wind") * dv[k];
  p.tf = c.d("tfs", 2) * p.dtref;
  return p;
}
