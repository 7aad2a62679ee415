// Judges of the properties. Included by harness.cpp.
#pragma once

// ---------------------------------------------------------------- own physics
typedef Eigen::Matrix<double, 14, 1> Q14;

static double own_pressure(const double *q, const Par &m) {
  Eigen::Matrix3d A;
  for (int k = 0; k < 9; k++)
    A(k / 3, k % 3) = q[5 + k];
  double r = q[0], v2 = (q[2] * q[2] + q[3] * q[3] + q[4] * q[4]) / (r * r);
  double e = q[1] / r - v2 / 2 - own_e2(m, r, A);
  return own_p(m, r, e);
}

static Q14 own_flux(const Q14 &q, const Par &m, int d) {
  double r = q(0);
  Eigen::Vector3d v = q.segment<3>(2) / r;
  Eigen::Matrix3d A;
  for (int k = 0; k < 9; k++)
    A(k / 3, k % 3) = q(5 + k);
  double p = own_pressure(q.data(), m);
  Eigen::Matrix3d G = A.transpose() * A;
  Eigen::Matrix3d D = G - G.trace() / 3. * Eigen::Matrix3d::Identity();
  Eigen::Matrix3d S = -r * own_cs2(m, r) * G * D;
  Q14 f;
  f(0) = r * v(d);
  f(1) = v(d) * (q(1) + p) - S.col(d).dot(v);
  for (int k = 0; k < 3; k++)
    f(2 + k) = r * v(k) * v(d) + (k == d ? p : 0) - S(k, d);
  Eigen::Vector3d Av = A * v;
  for (int k = 0; k < 9; k++)
    f(5 + k) = k % 3 == d ? Av(k / 3) : 0;
  return f;
}

// largest characteristic speed, from the derivatives of the harness's own flux
static double own_max_speed(const double *q0, const Par &m, int d) {
  Q14 q;
  for (int k = 0; k < 14; k++)
    q(k) = q0[k];
  Eigen::Matrix<double, 14, 14> J;
  double r = q(0);
  Eigen::Vector3d v = q.segment<3>(2) / r;
  for (int k = 0; k < 14; k++) {
    double h = 1e-6 * (std::abs(q(k)) + (k >= 5 ? 1. : k >= 2 ? r : k == 1 ? 0.1 * r : 0.1 * r));
    Q14 a = q, b = q;
    a(k) += h;
    b(k) -= h;
    J.col(k) = (own_flux(a, m, d) - own_flux(b, m, d)) / (2 * h);
  }
  // non-conservative part: v_k (dA_ij/dx_k - dA_ik/dx_j), derivatives along d only
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      J(5 + 3 * i + j, 5 + 3 * i + j) += v(d);
      if (j == d)
        for (int k = 0; k < 3; k++)
          J(5 + 3 * i + j, 5 + 3 * i + k) -= v(k);
    }
  // differences only hold so many digits: what is beyond them is noise
  double small = 1e-13 * J.cwiseAbs().maxCoeff();
  for (int i = 0; i < 14; i++)
    for (int k = 0; k < 14; k++)
      if (std::abs(J(i, k)) < small)
        J(i, k) = 0;
  double nan = std::nan("");
  if (!J.array().isFinite().all())
    return nan;
  Eigen::EigenSolver<Eigen::Matrix<double, 14, 14>> es(J, false);
  if (es.info() != Eigen::Success)
    return nan;
  double s = 0, im = 0;
  for (int k = 0; k < 14; k++) {
    double a = std::abs(es.eigenvalues()(k));
    if (!std::isfinite(a))
      return nan;
    s = std::max(s, a);
    im = std::max(im, std::abs(es.eigenvalues()(k).imag()));
  }
  // not hyperbolic: no waves to speak of
  return im > 1e-3 * s ? nan : s;
}

// ---------------------------------------------------------------- shared pieces
static bool changed(const Problem &p, const double *f) { return memcmp(p.u.data(), f, p.u.size() * 8) != 0; }

// A reference run that did not go well cannot serve; what it did may itself be
// the business of another property.
static bool usable(Verdict &v, Exec *e, Run *r) {
  if (!r || e->outcome != OK) {
    v.pass_over("reference run: " + describe(e));
    return false;
  }
  return true;
}

static std::vector<char> random_mask(const Case &c, const Problem &p, bool ext) {
  std::vector<char> m;
  double dens = c.d("mask", 1);
  if (dens >= 1)
    return m;
  sim::Rng r(c.i("mseed", 1));
  int n = ext ? (p.nx + 2) * (p.ndim == 2 ? p.ny + 2 : 1) : p.ncell;
  if (c.i("mblock", 0) && !ext) { // a block
    int a = (int)r.below(p.nx), b = a + 1 + (int)r.below(p.nx - a);
    int d = (int)r.below(p.ny), e = d + 1 + (int)r.below(p.ny - d);
    m.resize(n);
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++)
        m[i * p.ny + j] = i >= a && i < b && j >= d && j < e;
    return m;
  }
  for (int i = 0; i < n; i++)
    m.push_back(r.uni() < dens);
  return m;
}

static StepOpts step_opts(const Case &c, const Problem &p) {
  StepOpts o;
  o.steps = (int)c.i("steps", 1);
  o.dt = p.dtref * c.d("dtf", 0.8);
  o.mask = random_mask(c, p, false);
  return o;
}

// ---------------------------------------------------------------- C01, C02, C03
static void judge_workers(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config one, many = config(c);
  one.race = false;
  Exec *a, *b;
  if (c.s("level", "iter") == "step") {
    StepOpts o = step_opts(c, p);
    a = exec_steps(p, one, o);
    if (!usable(v, a, run_of(a, 0)))
      return;
    b = exec_steps(p, many, o);
  } else {
    a = exec_iter(p, one);
    if (!usable(v, a, run_of(a, 0)))
      return;
    b = exec_iter(p, many);
  }
  v.nontrivial = b->st.maxTeam > 1 && changed(p, at(run_of(a, 0)->fin));
  v.guilty = b;
  if (b->st.races)
    v.bad("race", "%llu unsynchronised accesses, first: %s", (unsigned long long)b->st.races, b->st.raceText);
  if (b->outcome != OK)
    v.bad("outcome", "with %d workers: %s", (int)b->st.maxTeam, describe(b).c_str());
  compare_runs(v, p, a, b, 0, 0, "bits");
  check_memory(v, b);
}

// ---------------------------------------------------------------- C04
static void judge_conserved(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  if (!usable(v, e, r))
    return;
  if (!finite_all(at(r->fin), r->size)) {
    v.pass_over("the run ended with a NaN");
    return;
  }
  v.nontrivial = r->nstate >= 1 && changed(p, at(r->fin));
  v.guilty = e;
  auto totals = [&](const double *u, double *t) {
    // compensated sums
    double s[6] = {0}, comp[6] = {0};
    for (int k = 0; k < p.ncell; k++)
      for (int q = 0; q < 6; q++) {
        if (q == 5 && !MULTI)
          continue;
        double x = (q == 5 ? u[k * V + mV] : u[k * V + q]) - comp[q];
        double y = s[q] + x;
        comp[q] = (y - s[q]) - x;
        s[q] = y;
      }
    for (int q = 0; q < 6; q++)
      t[q] = s[q];
  };
  double t0[6], t[6], scale[6];
  totals(p.u.data(), t0);
  double M = 0, E = 0;
  for (int k = 0; k < p.ncell; k++) {
    M += p.u(k * V);
    E += std::abs(p.u(k * V + 1)) + p.u(k * V) * p.cmax * p.cmax;
  }
  scale[0] = scale[5] = M;
  scale[1] = E;
  scale[2] = scale[3] = scale[4] = std::sqrt(M * E);
  double tol = c.d("tol", 1e-12);
  bool diag = c.i("tfree", 0);
  (void)diag;
  for (uint32_t s = 0; s < r->nstate; s++) {
    totals(at(r->state[s]), t);
    for (int q = 0; q < (MULTI ? 6 : 5); q++) {
      double d = std::abs(t[q] - t0[q]) / scale[q];
      v.most("drift", d / (s + 1));
      if (!(d <= tol * (s + 2)))
        v.bad("conservation", "after step %u total of component %d is %.17g instead of %.17g (relative %.3g)", s + 1,
              q == 5 ? mV : q, t[q], t0[q], d);
    }
  }
}

// ---------------------------------------------------------------- C05
static void judge_uniform(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  v.guilty = e;
  if (!r || e->outcome != OK) {
    v.bad("outcome", "a uniform state ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = r->nstate >= 2;
  double sc[32];
  for (int k = 0; k < V; k++)
    sc[k] = 1;
  double rho = p.u(0);
  sc[0] = rho;
  sc[1] = std::abs(p.u(1)) + rho * p.cmax * p.cmax;
  sc[2] = sc[3] = sc[4] = rho * p.cmax;
  double tol = c.d("tol", 1e-12);
  if (c.i("loose", 0)) {
    tol = 1e-5;
    for (int k = 5; k < 14; k++)
      sc[k] = 1000;
  }
  for (uint32_t s = 0; s < r->nstate; s++) {
    const double *g = at(r->state[s]);
    for (long k = 0; k < (long)r->size; k++) {
      double d = std::abs(g[k] - p.u(k)) / sc[k % V];
      v.most("dev", d / (s + 1));
      if (!(d <= tol * (s + 2))) {
        v.bad("uniform", "after step %u %s is %.17g instead of %.17g", s + 1, cellname(p, k).c_str(), g[k], p.u(k));
        return;
      }
    }
  }
  if (r->nstate == 0)
    v.bad("uniform", "no step was taken");
}

// ---------------------------------------------------------------- console faults from the case
static std::vector<Fault> console_faults(const Case &c, const Problem &p) {
  // fault=kind:print:cell:component:value,...
  std::vector<Fault> r;
  for (auto &t : c.list("fault")) {
    char kind[16] = "";
    long pr = 0, cell = 0, comp = 0;
    double val = 0;
    char vs[64] = "0";
    sscanf(t.c_str(), "%15[^:]:%ld:%ld:%ld:%63s", kind, &pr, &cell, &comp, vs);
    val = strtod(vs, nullptr);
    Fault f;
    f.kind = !strcmp(kind, "throw") ? Fault::THROW : !strcmp(kind, "scale") ? Fault::SCALE : Fault::SET;
    f.print = pr;
    f.idx = (cell % p.ncell) * V + comp % V;
    f.val = val;
    r.push_back(f);
  }
  return r;
}
static void apply(const std::vector<Fault> &fs, uint32_t step, Vec &u) {
  for (auto &f : fs)
    if (f.print / 2 == (long)step) {
      if (f.kind == Fault::SET)
        u(f.idx) = f.val;
      if (f.kind == Fault::SCALE && f.print % 2) // before the second report: already in the recorded grid
        u(f.idx) *= f.val;
    }
}
// the grid at the start of step s, faults included
static Vec before_step(const Problem &p, const Run *r, const std::vector<Fault> &fs, uint32_t s) {
  if (s == 0)
    return p.u;
  Vec u = Eigen::Map<Vec>(at(r->state[s - 1]), r->size);
  apply(fs, s - 1, u);
  return u;
}

// ---------------------------------------------------------------- C06
static void judge_clock(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  RunOpts o;
  o.faults = console_faults(c, p);
  o.cap = (uint32_t)(2 * (c.d("tfs", 2) * c.d("capf", 4) + 60));
  Exec *e = exec_iter(p, config(c), o);
  Run *r = run_of(e, 0);
  v.guilty = e;
  if (r && e->outcome == RUNAWAY) {
    // with several materials, ghost states decide too
    if (p.mats.size() > 1) {
      v.pass_over("many more steps than expected");
      return;
    }
    v.bad("progress", "the run has not ended after %u steps (sum of steps %.17g of %.17g)", r->nprint / 2,
          [&] { double s = 0; for (uint32_t k = 1; k < r->nprint; k += 2) s += r->prints[k]; return s; }(), p.tf);
    return;
  }
  if (!r || e->outcome != OK) {
    v.bad("outcome", "the run ends with %s", describe(e).c_str());
    return;
  }
  if (r->nprint != 2 * r->nstate || r->nstate == 0) {
    v.bad("reports", "%u progress values for %u steps", r->nprint, r->nstate);
    return;
  }
  bool nan = !finite_all(at(r->fin), r->size);
  bool faulty = false;
  double sum = 0;
  v.nontrivial = r->nstate >= 2;
  bool multi = p.mats.size() > 1;
  for (uint32_t s = 0; s < r->nstate; s++) {
    double dt = r->prints[2 * s + 1];
    Vec u = before_step(p, r, o.faults, s);
    for (auto &f : o.faults)
      if (f.print / 2 == (long)s)
        faulty = true;
    // fastest wave, from the harness's own equations
    double mx = 0;
    bool known = true;
    for (int k = 0; k < p.ncell; k++) {
      const double *q = u.data() + k * V;
      int mi = own_material(q);
      const Par &m = p.MPs[mi];
      if (m.EOS == EOS_VAC)
        continue;
      if (multi && p.ndim == 2) { // cells on their own are not advanced
        int i = k / p.ny, j = k % p.ny;
        auto same = [&](int a, int b) {
          return a >= 0 && b >= 0 && a < p.nx && b < p.ny && own_material(u.data() + p.at(a, b)) == mi;
        };
        if (!same(i - 1, j) && !same(i + 1, j) && !same(i, j - 1) && !same(i, j + 1))
          continue;
      }
      double t = 0;
      for (int d = 0; d < p.ndim; d++) {
        double w = own_max_speed(q, m, d);
        if (getenv("SIM_DEBUG")) {
          VecV qq = u.segment(k * V, V);
          fprintf(stderr, "step %u cell %d dir %d own %.17g code %.17g\n", s, k, d, w, max_abs_eigs(qq, d, const_cast<Par &>(m)));
          if (s == 0 || s == 8) { for (int z = 0; z < V; z++) fprintf(stderr, "%.17g ", q[z]); fprintf(stderr, "\n"); }
        }
        // a cell that left the admissible states has no wave speeds to go by
        double pr = own_pressure(q, m);
        if (!std::isfinite(w) || !(q[0] > 0) || !std::isfinite(own_c0(m, q[0], pr)) || w > 100 * p.cmax)
          known = false;
        t += w / p.dX(d);
      }
      mx = std::max(mx, t);
    }
    double full = p.cfl / mx * (s <= 5 ? 0.2 : 1.);
    double left = p.tf - sum;
    if (!(dt > 0)) {
      v.bad("positive", "step %u has size %.17g", s + 1, dt);
      return;
    }
    if (known && std::isfinite(full) && full > 0) {
      v.most("over", dt / full - 1);
      if (dt > full * (1 + 1e-4)) {
        v.bad("stable", "step %u has size %.17g; the fastest wave allows %.17g", s + 1, dt, full);
        return;
      }
      bool last = s + 1 == r->nstate;
      if (!multi && !last && !nan) {
        v.most("under", 1 - dt / full);
        if (dt < full * (1 - 1e-4) && dt < left * (1 - 1e-9)) {
          v.bad("full", "step %u has size %.17g; %.17g is allowed and %.17g is left", s + 1, dt, full, left);
          return;
        }
      }
    }
    sum += dt;
    if (sum > p.tf * (1 + 1e-12)) {
      v.bad("end", "after step %u the time is %.17g, beyond %.17g", s + 1, sum, p.tf);
      return;
    }
  }
  if (!nan && std::abs(sum - p.tf) > 1e-12 * p.tf)
    v.bad("end", "the steps add up to %.17g instead of %.17g", sum, p.tf);
  (void)faulty;
}

// ---------------------------------------------------------------- C07
static void judge_history(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  v.guilty = e;
  if (!usable(v, e, r))
    return;
  if (!finite_all(at(r->fin), r->size)) {
    v.pass_over("the run ended with a NaN");
    return;
  }
  if (r->nprint % 2 || r->nstate * 2 != r->nprint || r->ntext) {
    v.bad("reports", "%u progress values in %u steps", r->nprint, r->nstate);
    return;
  }
  if (r->histN != 100) {
    v.bad("slots", "%d slots", r->histN);
    return;
  }
  v.nontrivial = r->nstate > 3;
  // replay of the snapshot rule; when a time is within rounding of a hundredth
  // either decision is accepted
  double t = 0;
  int slot = 0;
  for (uint32_t s = 0; s < r->nstate; s++) {
    t += r->prints[2 * s + 1];
    double pc = r->prints[2 * s], q = t / p.tf * 100;
    if (!(pc == std::floor(q) || std::abs(pc - std::round(q)) < 0.5 + 1e-9 && std::abs(q - std::round(q)) < 1e-7)) {
      v.bad("percent", "step %u reports %.17g percent at %.17g percent", s + 1, pc, q);
      return;
    }
    double th = double(slot + 1) / 100. * p.tf;
    bool must = t > th * (1 + 1e-12), may = t >= th * (1 - 1e-12);
    const double *g = at(r->state[s]);
    if (slot >= 100)
      continue;
    bool is = slot < 99 && r->histSize[slot] == r->size && same_bits(at(r->hist[slot]), g, r->size);
    if (slot < 99) {
      if (must && !is) {
        v.bad("slot", r->histSize[slot] ? "slot %d does not hold the grid after step %u (time %.17g of %.17g)"
                                        : "slot %d is empty although step %u reached time %.17g of %.17g",
              slot, s + 1, t, p.tf);
        return;
      }
      if (must || (may && is))
        slot++;
    }
  }
  for (int k = slot; k < 99; k++)
    if (r->histSize[k]) {
      v.bad("slot", "slot %d is filled although only %d were due", k, slot);
      return;
    }
  if (r->histSize[99] != r->size || !same_bits(at(r->hist[99]), at(r->fin), r->size))
    v.bad("last", "the last slot does not hold the final grid");
  if (!same_bits(at(r->state[r->nstate - 1]), at(r->fin), r->size))
    v.bad("last", "the caller's grid is not the grid after the last step");
}

// ---------------------------------------------------------------- C08
static bool has_nan(const double *a, size_t n) {
  for (size_t k = 0; k < n; k++)
    if (a[k] != a[k])
      return true;
  return false;
}

static void judge_nan(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  RunOpts o;
  o.faults = console_faults(c, p);
  o.cap = (uint32_t)(2 * (c.d("tfs", 2) * 6 + 100));
  Exec *ref = exec_iter(p, config(c)); // undisturbed
  Problem q = p;
  bool initial = c.has("inan");
  if (initial) {
    auto k = c.ints("inan");
    q.u((k[0] % p.ncell) * V + k[1] % V) = std::nan("");
  }
  Exec *e = exec_iter(q, config(c), o);
  Run *r = run_of(e, 0), *w = run_of(ref, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!usable(v, ref, w))
    return;
  if (has_nan(at(w->fin), w->size)) {
    v.pass_over("the undisturbed run ends with a NaN");
    return;
  }
  long first = initial ? 0 : o.faults.empty() ? -1 : o.faults[0].print;
  if (first < 0 || (!initial && first >= (long)w->nprint)) {
    v.pass_over("the run is over before the fault");
    return;
  }
  if (!r || e->outcome != OK) {
    v.bad("outcome", "after a NaN the run ends with %s", describe(e).c_str());
    return;
  }
  bool isnan_fault = initial || o.faults[0].val != o.faults[0].val;
  bool nan = has_nan(at(r->fin), r->size);
  if (!nan) {
    if (isnan_fault)
      v.bad("lost", "the NaN is gone and the run went on to its end");
    else
      v.pass_over("the fault did not lead to a NaN");
    return;
  }
  v.nontrivial = true;
  // the step in which the grid was first seen with a NaN
  uint32_t s = 0;
  bool found = false;
  for (; s < r->nstate; s++) {
    Vec u = Eigen::Map<Vec>(at(r->state[s]), r->size);
    apply(o.faults, s, u);
    if (has_nan(u.data(), r->size)) {
      found = true;
      break;
    }
  }
  if (!found) {
    v.bad("found", "no reported grid holds the NaN");
    return;
  }
  if (r->nstate != s + 1)
    v.bad("late", "the NaN was there after step %u but %u steps were taken", s + 1, r->nstate);
  if (initial && s > 0)
    v.bad("late", "a NaN in the initial grid was only noticed after step %u", s + 1);
  if (!initial && isnan_fault && (long)s > first / 2 + 1)
    v.bad("late", "a NaN at step %ld was only noticed after step %u", first / 2 + 1, s + 1);
  // the last two filled slots
  int last = -1, prev = -1;
  for (int k = r->histN - 1; k >= 0; k--)
    if (r->histSize[k]) {
      if (last < 0)
        last = k;
      else {
        prev = k;
        break;
      }
    }
  if (r->histN != 100 || prev < 0 || last != prev + 1 || r->histSize[last] != r->size || r->histSize[prev] != r->size) {
    v.bad("evidence", "history of %d slots ends with slots %d and %d", r->histN, prev, last);
    return;
  }
  if (!same_bits(at(r->hist[last]), at(r->fin), r->size))
    v.bad("evidence", "slot %d, the last, is not the caller's grid", last);
  if (!has_nan(at(r->hist[last]), r->size))
    v.bad("evidence", "slot %d, the last, holds no NaN", last);
  Vec b = initial && s == 0 ? q.u : before_step(p, r, o.faults, s);
  if (!same_bits(b.data(), at(r->hist[prev]), r->size)) {
    // the level sets may have been turned into distances meanwhile
    bool same = true;
    for (int k = 0; k < p.ncell && same; k++)
      same = same_bits(b.data() + k * V, at(r->hist[prev]) + k * V, V - LSET);
    if (!same)
      v.bad("evidence", "slot %d is not the grid before the step with the NaN (step %u)", prev, s + 1);
  }
  // earlier slots as in the undisturbed run: those filled before the disturbed step
  long clean = initial ? 0 : first / 2 + 1; // states up to and including this many steps are undisturbed
  double t = 0;
  int slot = 0;
  for (uint32_t k = 0; k < (uint32_t)clean && k < w->nstate; k++) {
    t += w->prints[2 * k + 1];
    if (t >= double(slot + 1) / 100. * p.tf * (1 - 1e-12)) {
      bool amb = std::abs(t - double(slot + 1) / 100. * p.tf) <= 1e-12 * p.tf;
      if (amb)
        break;
      if (slot < prev) {
        if (r->histSize[slot] != r->size || !same_bits(at(w->hist[slot]), at(r->hist[slot]), r->size)) {
          v.bad("earlier", "slot %d is not as in the undisturbed run", slot);
          return;
        }
      }
      slot++;
    }
  }
}

// ---------------------------------------------------------------- C09
static void judge_memory(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config clean;
  clean.teams = config(c).teams;
  Exec *a = exec_iter(p, clean);
  if (!usable(v, a, run_of(a, 0)))
    return;
  v.nontrivial = changed(p, at(run_of(a, 0)->fin));
  Config dirty = config(c);
  Case pc = c.sub("prior"), pc2 = c.sub("prior2");
  bool prior = !pc.m.empty(), prior2 = !pc2.m.empty();
  Problem q, q2;
  if (prior)
    q = make_problem(pc);
  if (prior2)
    q2 = make_problem(pc2);
  Exec *b = execute(dirty, [&](Exec *e) {
    Run *r0, *r1, *r;
    {
      Internal z;
      r0 = new_run(e);
      r1 = new_run(e);
      r = new_run(e);
    }
    if (prior) {
      RunOpts o;
      {
        Internal z;
        o.faults = console_faults(pc, q);
      }
      run_iterator(q, r0, o);
      g_tot.faults["earlier run"]++;
    }
    if (prior2) {
      RunOpts o;
      {
        Internal z;
        o.faults = console_faults(pc2, q2);
      }
      run_iterator(q2, r1, o);
    }
    if (dirty.poison)
      sim::dirty_stack();
    run_iterator(p, r, RunOpts());
    e->outcome = r->outcome;
    Internal z;
    snprintf(e->what, sizeof e->what, "%s", r->what);
  });
  if (prior)
    g_tot.faults["earlier run in the process"] += 1 + prior2;
  v.guilty = b;
  Run *x = run_of(b, 2);
  if (b->outcome != OK && (!x || x->outcome == NONE) && prior) {
    Run *y = run_of(b, 0);
    Run *y1 = run_of(b, 1);
    if (!y || y->outcome == NONE || (prior2 && (!y1 || y1->outcome == NONE))) {
      v.pass_over("earlier run: " + describe(b));
      return;
    }
  }
  if (b->outcome != OK) {
    v.bad("outcome", "ends with %s", describe(b).c_str());
    return;
  }
  compare_runs(v, p, a, b, 0, 2, "bits");
  check_memory(v, b);
}

// ---------------------------------------------------------------- C10
static void judge_alloc(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config cfg = config(c);
  Exec *a = exec_iter(p, cfg);
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  long n = (long)a->st.allocs;
  Config f = cfg;
  f.failAlloc = c.has("failat") ? c.i("failat") : (long)(c.d("failfrac", 0.5) * n);
  f.failAll = c.i("failall", 0);
  v.nums["failat"] = (double)f.failAlloc;
  Exec *b = execute(f, [&](Exec *e) {
    Run *r, *r2;
    {
      Internal z;
      r = new_run(e);
      r2 = new_run(e);
    }
    run_iterator(p, r, RunOpts());
    e->outcome = r->outcome;
    if (r->outcome == BADALLOC) {
      // memory is back: the same process can do the run
      {
        Internal z;
        sim::set_fail(-1, false);
      }
      run_iterator(p, r2, RunOpts());
    }
  });
  Run *rb = run_of(b, 0);
  v.guilty = b;
  v.nontrivial = b->st.failedAllocs > 0;
  if (!b->st.failedAllocs) {
    v.pass_over("no allocation failed");
    return;
  }
  switch (rb ? rb->outcome : NONE) {
  case OK:
    compare_runs(v, p, a, b, 0, 0, "silent");
    if (v.fail)
      v.reason = "a failed allocation went unnoticed: " + v.reason;
    break;
  case BADALLOC: {
    Run *r2 = run_of(b, 1);
    if (rb->inputsChanged)
      v.bad("inputs", "the parameters of the run were changed");
    if (b->outcome != BADALLOC || !r2 || r2->outcome != OK)
      v.bad("retry", "a second run after the failed one ends with %s", r2 && r2->outcome ? OUTCOME[r2->outcome] : describe(b).c_str());
    else
      compare_runs(v, p, a, b, 0, 1, "retry");
    break;
  }
  case NONE: // the process ended
    if (!(b->outcome == TERMINATE && (!strcmp(b->what, typeid(std::bad_alloc).name()) || !strcmp(b->what, "no exception"))))
      v.bad("crash", "a failed allocation ends with %s", describe(b).c_str());
    break;
  default:
    v.bad("error", "a failed allocation is reported as %s (%s)", OUTCOME[rb->outcome], rb->what);
  }
  check_memory(v, b);
}

// ---------------------------------------------------------------- C11
static void judge_interrupt(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config cfg = config(c);
  Exec *a = exec_iter(p, cfg); // undisturbed
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  long k = c.has("at") ? c.i("at") : (long)(c.d("atfrac", 0.5) * ra->nprint);
  if (k >= (long)ra->nprint) {
    v.pass_over("the run is over before the interruption");
    return;
  }
  v.nums["at"] = (double)k;
  v.nontrivial = true;
  RunOpts o;
  Fault th = {Fault::THROW, k, 0, 0};
  o.faults.push_back(th);
  long s = k / 2; // steps completed but one
  double t = 0;
  for (long i = 0; i <= s; i++)
    t += ra->prints[2 * i + 1];
  double rest = p.tf - t;
  bool resume = rest > 1e-9 * p.tf;
  Exec *b = execute(cfg, [&](Exec *e) {
    Run *r, *r2;
    {
      Internal z;
      r = new_run(e);
      r2 = new_run(e);
    }
    run_iterator(p, r, o);
    e->outcome = r->outcome;
    if (r->outcome == INTERRUPT && resume) {
      RunOpts o2;
      o2.from = at(r->fin);
      o2.tf = rest;
      run_iterator(p, r2, o2);
    }
  });
  v.guilty = b;
  Run *rb = run_of(b, 0), *rc = run_of(b, 1);
  if (!rb || rb->outcome != INTERRUPT) {
    v.bad("error", "an interrupted run ends with %s", rb && rb->outcome ? OUTCOME[rb->outcome] : describe(b).c_str());
    return;
  }
  // a whole number of steps: that of the last report, or one of those before
  bool hit = false;
  for (long i = -1; i <= s && !hit; i++)
    hit = same_bits(i < 0 ? p.u.data() : at(ra->state[i]), at(rb->fin), rb->size);
  if (!hit) {
    v.bad("torn", "interrupted at step %ld, the grid is not the one after any whole number of steps", s + 1);
    differ(v, p, at(ra->state[s]), at(rb->fin), rb->size, "grid", "torn");
    return;
  }
  if (!same_bits(at(ra->state[s]), at(rb->fin), rb->size))
    v.bad("behind", "interrupted at the report of step %ld, the grid is that of an earlier step", s + 1);
  // the grids seen at the reports may themselves not be those after whole steps:
  // a run that is asked to stop after exactly these steps returns one that is
  Exec *d = NULL;
  Run *rd = NULL;
  if (resume) {
    RunOpts o4;
    o4.tf = t;
    d = exec_iter(p, cfg, o4);
    rd = run_of(d, 0);
  }
  if (rd && d->outcome == OK && rd->nprint == (uint32_t)(2 * (s + 1)) && rd->prints[2 * s + 1] == ra->prints[2 * s + 1] &&
      !same_bits(at(rd->fin), at(rb->fin), rb->size)) {
    v.bad("torn", "interrupted at step %ld, the grid differs from the one a run of as many steps returns", s + 1);
    differ(v, p, at(rd->fin), at(rb->fin), rb->size, "grid", "torn");
  }
  if (rb->inputsChanged)
    v.bad("inputs", "the parameters of the run were changed");
  if (resume) {
    if (b->outcome != INTERRUPT || !rc || rc->outcome == NONE) {
      v.bad("resume", "the resumed run ends with %s", describe(b).c_str());
      return;
    }
    RunOpts o3;
    o3.from = at(rb->fin);
    o3.tf = rest;
    Exec *f = exec_iter(p, cfg, o3);
    compare_runs(v, p, f, b, 0, 1, "resume");
    if (!v.fail && rc->outcome != OK)
      v.bad("resume", "the resumed run ends with %s", OUTCOME[rc->outcome]);
  }
  check_memory(v, b);
}

// ---------------------------------------------------------------- C12
static void judge_materials(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  RunOpts o;
  o.cap = (uint32_t)(2 * (c.d("tfs", 2) * 8 + 100));
  Exec *e = exec_iter(p, config(c), o);
  Run *r = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (r && e->outcome == RUNAWAY && !c.i("gentle", 0)) {
    v.pass_over("many more steps than expected");
    return;
  }
  if (!r || e->outcome != OK) {
    v.bad("outcome", "the run ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = r->nstate >= 1;
  int nmat = (int)p.mats.size();
  bool seen[3] = {false, false, false};
  bool gentle = c.i("gentle", 0);
  for (uint32_t s = 0; s < r->nstate; s++) {
    const double *g = at(r->state[s]);
    for (int k = 0; k < p.ncell; k++) {
      const double *q = g + k * V;
      for (int l = V - LSET; l < V; l++)
        if (!std::isfinite(q[l])) {
          if (!gentle) { // strong data: the scheme may break down, and ends the run
            v.pass_over("the run ends with a NaN");
            return;
          }
          v.bad("finite", "after step %u the level set of %s is %g", s + 1, cellname(p, k * V + l).c_str(), q[l]);
          return;
        }
      int mi = own_material(q);
      if (mi >= nmat) {
        v.bad("index", "after step %u %s belongs to material %d of %d", s + 1, cellname(p, k * V).c_str(), mi, nmat);
        return;
      }
      seen[mi] = true;
      if (p.MPs[mi].EOS == EOS_VAC) {
        for (int l = 0; l < V - LSET; l++)
          if (q[l] != 0) {
            v.bad("vacuum", "after step %u the vacuum holds %.17g in %s", s + 1, q[l], cellname(p, k * V + l).c_str());
            return;
          }
      } else {
        if (!gentle && (!std::isfinite(q[0]) || !(q[0] > 0) || has_nan(q, V))) {
          v.pass_over("the run breaks down");
          return;
        }
        for (int l = 0; l < V - LSET; l++)
          if (!std::isfinite(q[l])) {
            v.bad("finite", "after step %u %s is %g", s + 1, cellname(p, k * V + l).c_str(), q[l]);
            return;
          }
        if (!(q[0] > 0)) {
          v.bad("density", "after step %u %s has density %.17g", s + 1, cellname(p, k * V).c_str(), q[0]);
          return;
        }
      }
    }
  }
  (void)seen;
}

// ---------------------------------------------------------------- C14
static void judge_footprint(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  StepOpts o = step_opts(c, p);
  Exec *e = exec_steps(p, config(c), o);
  Run *r = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!r || e->outcome != OK) {
    StepOpts full = o;
    full.mask.clear();
    Exec *f = exec_steps(p, config(c), full);
    if (f->outcome == OK)
      v.bad("outcome", "a masked step ends with %s", describe(e).c_str());
    else
      v.pass_over("step: " + describe(e));
    return;
  }
  v.nontrivial = changed(p, at(r->fin));
  if (r->inputsChanged)
    v.bad("inputs", "a step changed its %s",
          r->inputsChanged & 1 ? "extended grid" : r->inputsChanged & 2 ? "mask" : "parameters");
  if (e->st.races)
    v.bad("race", "%s", e->st.raceText);
  if (o.mask.empty() || o.steps != 1)
    return;
  StepOpts full = o;
  full.mask.clear();
  Exec *f = exec_steps(p, config(c), full);
  Run *rf = run_of(f, 0);
  const double *g = at(r->fin);
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      int k = i * p.ny + j;
      auto m = [&](int a, int b) { return a >= 0 && b >= 0 && a < p.nx && b < p.ny && o.mask[a * p.ny + b]; };
      bool in = m(i, j), near = in || m(i - 1, j) || m(i + 1, j) || m(i, j - 1) || m(i, j + 1);
      if (!near && !p.split && !same_bits(g + k * V, p.u.data() + k * V, V)) {
        v.bad("unmasked", "%s is neither in the mask nor next to it but was changed", cellname(p, k * V).c_str());
        return;
      }
      if (in && rf && f->outcome == OK && !same_bits(g + k * V, at(rf->fin) + k * V, V)) {
        v.bad("masked", "%s is in the mask but has other values than without a mask", cellname(p, k * V).c_str());
        return;
      }
    }
}

// ---------------------------------------------------------------- C15
static void judge_reach(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  StepOpts o = step_opts(c, p);
  o.mask.clear();
  o.steps = 1;
  Exec *a = exec_steps(p, config(c), o);
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  long cell = c.i("cell", 0) % p.ncell, comp = c.i("comp", 0) % (V - LSET);
  StepOpts d = o;
  d.poke = cell * V + comp;
  std::string how = c.s("poke", "scale");
  d.pokeScale = how == "scale";
  d.pokeVal = how == "nan" ? std::nan("") : c.d("pval", 1.05);
  Exec *b = exec_steps(p, config(c), d);
  Run *rb = run_of(b, 0);
  v.guilty = b;
  if (!rb || b->outcome != OK) {
    if (how == "nan")
      v.bad("outcome", "a step of a grid with one NaN ends with %s", describe(b).c_str());
    else
      v.pass_over("disturbed step: " + describe(b));
    return;
  }
  const double *x = at(ra->fin), *y = at(rb->fin);
  int ci = (int)(cell / p.ny), cj = (int)(cell % p.ny);
  auto dist = [&](int a, int b, int n, int t0, int t1) {
    int d = std::abs(a - b);
    if (t0 == 1 || t1 == 1)
      d = std::min(d, n - d);
    return d;
  };
  bool any = false;
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      int k = i * p.ny + j;
      if (same_bits(x + k * V, y + k * V, V))
        continue;
      any = true;
      int dx = dist(i, ci, p.nx, p.bc(0), p.bc(1)), dy = p.ndim == 2 ? dist(j, cj, p.ny, p.bc(2), p.bc(3)) : 0;
      v.most("reach", std::max(dx, dy));
      if (dx > N || dy > N) {
        v.bad("reach", "a change of %s changes %s in one step", cellname(p, cell * V + comp).c_str(),
              cellname(p, k * V).c_str());
        return;
      }
    }
  v.nontrivial = any;
}

// ---------------------------------------------------------------- C16
static void judge_lanes(const Case &c, Verdict &v) {
  std::vector<Case> cs;
  std::vector<Problem> ps;
  for (int l = 0; l < 4; l++) {
    Case s = c.sub("l" + std::to_string(l));
    if (s.m.empty())
      break;
    cs.push_back(s);
    ps.push_back(make_problem(s));
  }
  Config cfg = config(c);
  std::vector<Exec *> alone;
  for (size_t l = 0; l < ps.size(); l++) {
    RunOpts o;
    o.faults = console_faults(cs[l], ps[l]);
    Config one = cfg;
    one.schedMode = 0;
    alone.push_back(exec_iter(ps[l], one, o));
    if (alone[l]->outcome != OK && alone[l]->outcome != INTERRUPT) {
      v.pass_over("alone: " + describe(alone[l]));
      return;
    }
  }
  Exec *b = execute(cfg, [&](Exec *e) {
    std::vector<std::function<void()>> bodies;
    {
      Internal z;
      for (size_t l = 0; l < ps.size(); l++) {
        Run *r = new_run(e);
        bodies.push_back([&, l, r] {
          RunOpts o;
          {
            Internal z;
            o.faults = console_faults(cs[l], ps[l]);
            o.lanes = true;
            o.lane = (int)l + 1;
          }
          run_iterator(ps[l], r, o);
          Internal z;
          o.faults.clear();
          o.faults.shrink_to_fit();
        });
      }
    }
    sim::run_lanes(bodies);
    Internal z;
    bodies.clear();
  });
  v.guilty = b;
  v.nontrivial = b->st.switches > 0;
  if (b->outcome != OK) {
    v.bad("outcome", "together they end with %s", describe(b).c_str());
    return;
  }
  for (size_t l = 0; l < ps.size(); l++) {
    compare_runs(v, ps[l], alone[l], b, 0, (int)l, "bits");
    if (v.fail) {
      v.reason = "simulation " + std::to_string(l + 1) + ": " + v.reason;
      return;
    }
  }
  check_memory(v, b);
}

// ---------------------------------------------------------------- C17
static double distortion_measure(const double *q, double &det) {
  Eigen::Matrix3d A;
  for (int k = 0; k < 9; k++)
    A(k / 3, k % 3) = q[5 + k];
  det = A.determinant();
  Eigen::Matrix3d G = A.transpose() * A;
  return G.trace() / (3 * std::pow(det * det, 1. / 3)) - 1;
}

static void judge_distortion(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config cfg = config(c);
  double tol = p.ctol;
  Problem q = p;
  q.ctol = 1e300;
  Exec *a = exec_iter(q, cfg);
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  if (!finite_all(at(ra->fin), ra->size)) {
    v.pass_over("the run ends with a NaN");
    return;
  }
  Exec *b = exec_iter(p, cfg);
  Run *rb = run_of(b, 0);
  v.guilty = b;
  if (!rb || b->outcome != OK) {
    v.bad("outcome", "with resets the run ends with %s", describe(b).c_str());
    return;
  }
  auto vac = [&](const double *x) { return p.MPs[own_material(x)].EOS == EOS_VAC; };
  // determinant after every step of both runs
  for (int w = 0; w < 2; w++) {
    Run *r = w ? rb : ra;
    for (uint32_t s = 0; s < r->nstate; s++)
      for (int k = 0; k < p.ncell; k++) {
        const double *x = at(r->state[s]) + k * V;
        if (vac(x))
          continue;
        if (has_nan(x, V)) {
          if (!w)
            v.pass_over("NaN");
          break;
        }
        double det, want = x[0] / p.MPs[own_material(x)].ρ0;
        distortion_measure(x, det);
        double d = std::abs(det - want) / std::abs(want);
        v.most("det", d);
        if (x[0] > 0 && !(d <= 1e-9)) {
          v.bad("determinant", "after step %u %s has determinant %.17g for relative density %.17g", s + 1,
                cellname(p, k * V).c_str(), det, want);
          return;
        }
      }
  }
  // the first reset
  uint32_t n = std::min(ra->nstate, rb->nstate);
  bool reset = false;
  for (uint32_t s = 0; s < n && !reset; s++) {
    double worst = -1;
    const double *x = at(ra->state[s]), *y = at(rb->state[s]);
    for (int k = 0; k < p.ncell; k++) {
      if (vac(x + k * V))
        continue;
      double det;
      worst = std::max(worst, distortion_measure(x + k * V, det));
    }
    if (std::abs(worst - tol) < 1e-9 * (1 + tol)) {
      v.pass_over("too close to the tolerance");
      return;
    }
    if (worst < tol) {
      if (!same_bits(x, y, ra->size)) {
        v.bad("early", "after step %u the largest distortion %.17g is below the tolerance %.17g but the grid was changed",
              s + 1, worst, tol);
        return;
      }
      continue;
    }
    reset = true;
    v.nontrivial = true;
    for (int k = 0; k < p.ncell; k++) {
      const double *f = x + k * V, *g = y + k * V;
      if (vac(f))
        continue;
      const Par &m = p.MPs[own_material(f)];
      double r = f[0], cc = std::cbrt(r / m.ρ0);
      Eigen::Matrix3d A;
      for (int l = 0; l < 9; l++)
        A(l / 3, l % 3) = f[5 + l];
      double el = r * own_e2(m, r, A);
      for (int l = 0; l < 9; l++)
        if (!(std::abs(g[5 + l] - (l % 4 == 0 ? cc : 0)) <= 1e-9 * cc)) {
          v.bad("reset", "after the reset of step %u %s is %.17g", s + 1, cellname(p, k * V + 5 + l).c_str(), g[5 + l]);
          return;
        }
      if (g[0] != f[0] || g[2] != f[2] || g[3] != f[3] || g[4] != f[4]) {
        v.bad("reset", "the reset of step %u changed density or momentum of %s", s + 1, cellname(p, k * V).c_str());
        return;
      }
      double d = std::abs(g[1] - (f[1] - el)) / (std::abs(f[1]) + el);
      v.most("energy", d);
      if (!(d <= 1e-11)) {
        v.bad("energy", "the reset of step %u changed the energy of %s from %.17g to %.17g; the elastic energy is %.17g",
              s + 1, cellname(p, k * V).c_str(), f[1], g[1], el);
        return;
      }
    }
  }
  // ever after: no grid beyond the tolerance
  for (uint32_t s = 0; s < rb->nstate; s++)
    for (int k = 0; k < p.ncell; k++) {
      const double *x = at(rb->state[s]) + k * V;
      if (vac(x) || has_nan(x, V))
        continue;
      double det, w = distortion_measure(x, det);
      if (w > tol * (1 + 1e-9) + 1e-9) {
        v.bad("missed", "after step %u %s is distorted by %.17g, beyond %.17g", s + 1, cellname(p, k * V).c_str(), w, tol);
        return;
      }
    }
}

// ---------------------------------------------------------------- C18
static void permute(double *q, int a, int b) { // exchanges two axes
  std::swap(q[2 + a], q[2 + b]);
  for (int k = 0; k < 3; k++)
    std::swap(q[5 + 3 * a + k], q[5 + 3 * b + k]);
  for (int k = 0; k < 3; k++)
    std::swap(q[5 + 3 * k + a], q[5 + 3 * k + b]);
}
static void reflect(double *q, int d) {
  q[2 + d] *= -1;
  for (int k = 0; k < 3; k++)
    if (k != d) {
      q[5 + 3 * d + k] *= -1;
      q[5 + 3 * k + d] *= -1;
    }
}

static void judge_symmetry(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  StepOpts o = step_opts(c, p);
  o.mask.clear();
  Config cfg = config(c);
  Exec *a = exec_steps(p, cfg, o);
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  if (!finite_all(at(ra->fin), ra->size)) {
    v.pass_over("the run ends with a NaN");
    return;
  }
  v.nontrivial = changed(p, at(ra->fin));
  const double *x = at(ra->fin);
  double tol = c.d("tol", 1e-9);
  double sc[32];
  for (int k = 0; k < V; k++)
    sc[k] = 1;
  double rho = p.mats[0].rho;
  sc[0] = rho;
  sc[1] = std::abs(p.u(1)) + rho * p.cmax * p.cmax;
  sc[2] = sc[3] = sc[4] = rho * p.cmax;
  // errors are also measured against what the steps change
  double change = 0;
  for (long k = 0; k < (long)ra->size; k++)
    change = std::max(change, std::abs(x[k] - p.u(k)) / sc[k % V]);
  v.most("change", change);
  double part = c.d("part", 0);
  std::string kind = c.s("rel", "plane");
  if (kind == "plane") {
    int dir = (int)c.i("dir", 0), n = dir == 0 ? p.nx : p.ny;
    // constant across
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++) {
        const double *y = x + (dir == 0 ? p.at(i, p.ny / 2) : p.at(p.nx / 2, j)), *z = x + p.at(i, j);
        for (int k = 0; k < V; k++) {
          double d = std::abs(y[k] - z[k]) / sc[k];
          v.most("across", d);
          if (!(d <= tol)) {
            v.bad("across", "planar data: %s is %.17g but %.17g in the middle", cellname(p, p.at(i, j) + k).c_str(), z[k], y[k]);
            return;
          }
        }
      }
    // the 1D run
    Problem q = p;
    q.ndim = 1;
    q.nx = q.ncell = n;
    q.ny = 1;
    q.nX.resize(1);
    q.nX(0) = n;
    q.dX.resize(1);
    q.dX(0) = p.dX(dir);
    q.bc.resize(2);
    q.bc(0) = p.bc(2 * dir);
    q.bc(1) = p.bc(2 * dir + 1);
    q.u.resize(n * V);
    for (int i = 0; i < n; i++) {
      q.u.segment(i * V, V) = p.u.segment(dir == 0 ? p.at(i, 0) : p.at(0, i), V);
      if (dir == 1)
        permute(q.u.data() + i * V, 0, 1);
    }
    Exec *b = exec_steps(q, Config(), o);
    Run *rb = run_of(b, 0);
    if (!rb || b->outcome != OK) {
      v.bad("outcome", "the 1D run ends with %s", describe(b).c_str());
      return;
    }
    v.guilty = b;
    if (!finite_all(at(rb->fin), rb->size)) {
      v.pass_over("the 1D run ends with a NaN");
      return;
    }
    double tol1 = std::max(c.d("tol1", tol), part * change);
    for (int i = 0; i < n; i++) {
      double y[64];
      memcpy(y, at(rb->fin) + i * V, V * 8);
      if (dir == 1)
        permute(y, 0, 1);
      const double *z = x + (dir == 0 ? p.at(i, p.ny / 2) : p.at(p.nx / 2, i));
      for (int k = 0; k < V; k++) {
        double d = std::abs(y[k] - z[k]) / sc[k];
        v.most("along", d);
        if (!(d <= tol1)) {
          v.bad("along", "component %d at %d is %.17g in 2D and %.17g in 1D", k, i, z[k], y[k]);
          return;
        }
      }
    }
  } else if (kind == "mirror") {
    int d = (int)c.i("axis", 0);
    Problem q = p;
    std::swap(q.bc(2 * d), q.bc(2 * d + 1));
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++) {
        int t = d == 0 ? p.at(p.nx - 1 - i, j) : p.at(i, p.ny - 1 - j);
        q.u.segment(p.at(i, j), V) = p.u.segment(t, V);
        reflect(q.u.data() + p.at(i, j), d);
      }
    double tolm = std::max(tol, part * change);
    Config two = cfg;
    auto t2 = c.ints("teams2");
    if (!t2.empty())
      two.teams = t2;
    Exec *b = exec_steps(q, two, o);
    Run *rb = run_of(b, 0);
    if (!rb || b->outcome != OK) {
      v.bad("outcome", "the mirror image ends with %s", describe(b).c_str());
      return;
    }
    v.guilty = b;
    if (!finite_all(at(rb->fin), rb->size)) {
      v.pass_over("the mirror image ends with a NaN");
      return;
    }
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++) {
        int t = d == 0 ? p.at(p.nx - 1 - i, j) : p.at(i, p.ny - 1 - j);
        double y[64];
        memcpy(y, at(rb->fin) + t, V * 8);
        reflect(y, d);
        for (int k = 0; k < V; k++) {
          double e = std::abs(y[k] - x[p.at(i, j) + k]) / sc[k];
          v.most("mirror", e);
          if (e > tolm && getenv("SIM_DEBUG"))
            fprintf(stderr, "%d,%d component %d: %.10g %.10g was %.10g\n", i, j, k, x[p.at(i, j) + k], y[k], p.u(p.at(i, j) + k));
          if (!(e <= tolm)) {
            v.bad("mirror", "%s is %.17g, its mirror image %.17g", cellname(p, p.at(i, j) + k).c_str(), x[p.at(i, j) + k], y[k]);
            if (!getenv("SIM_DEBUG"))
              return;
          }
        }
      }
  } else { // shifted by whole cells on a periodic grid
    int sx = (int)c.i("sx", 1) % p.nx;
    Problem q = p;
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++)
        q.u.segment(p.at((i + sx) % p.nx, j), V) = p.u.segment(p.at(i, j), V);
    Exec *b = exec_steps(q, cfg, o);
    Run *rb = run_of(b, 0);
    v.guilty = b;
    if (!rb || b->outcome != OK) {
      v.bad("outcome", "the shifted run ends with %s", describe(b).c_str());
      return;
    }
    for (int i = 0; i < p.nx; i++)
      for (int j = 0; j < p.ny; j++)
        for (int k = 0; k < V; k++) {
          double y = at(rb->fin)[p.at((i + sx) % p.nx, j) + k], z = x[p.at(i, j) + k];
          double e = std::abs(y - z) / sc[k];
          v.most("shift", e);
          if (!(e <= tol)) {
            v.bad("shift", "%s is %.17g, shifted by %d cells %.17g", cellname(p, p.at(i, j) + k).c_str(), z, sx, y);
            return;
          }
        }
  }
}

// ---------------------------------------------------------------- C19
static void judge_reactant(const Case &c, Verdict &v) {
  if (!MULTI) {
    v.pass_over("built without reactants");
    return;
  }
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  v.guilty = e;
  if (!usable(v, e, r))
    return;
  if (!finite_all(at(r->fin), r->size)) {
    v.pass_over("the run ends with a NaN");
    return;
  }
  v.nontrivial = r->nstate >= 2;
  double lo = 1e9, hi = -1e9;
  for (int k = 0; k < p.ncell; k++) {
    double l = p.u(k * V + mV) / p.u(k * V);
    lo = std::min(lo, l);
    hi = std::max(hi, l);
  }
  bool uniform = hi - lo < 1e-14;
  bool react = p.MPs[0].REACTION > -1;
  double tol = c.d("tol", 1e-7);
  for (uint32_t s = 0; s < r->nstate; s++)
    for (int k = 0; k < p.ncell; k++) {
      const double *q = at(r->state[s]) + k * V;
      if (!(q[mV] >= 0 && q[mV] <= q[0])) {
        v.bad("bounds", "after step %u %s holds reactant mass %.17g for density %.17g", s + 1, cellname(p, k * V).c_str(), q[mV], q[0]);
        return;
      }
      double l = q[mV] / q[0];
      if (uniform) {
        double d = react ? l - hi : std::abs(l - hi);
        v.most(react ? "rise" : "spread", d);
        if (!(d <= (react ? 1e-3 : tol * (s + 1)))) {
          v.bad("fraction", "after step %u the fraction of %s is %.17g; it was %.17g everywhere", s + 1,
                cellname(p, k * V).c_str(), l, hi);
          return;
        }
      }
    }
}

// ---------------------------------------------------------------- C20
typedef Eigen::Matrix3d M3;
static M3 deviator(const M3 &A) {
  M3 G = A.transpose() * A;
  return G - G.trace() / 3. * M3::Identity();
}
// the harness's own relaxation law
static M3 own_relaxation(const Par &m, double r, const M3 &A) {
  double A53 = std::pow(A.determinant(), 5. / 3), cs2 = own_cs2(m, r), inv = 0;
  M3 D = deviator(A), S = r * cs2 * (A.transpose() * A) * D;
  double shear = S.norm() / std::sqrt(2.);
  if (m.SOLID) {
    if (m.POWER_LAW) {
      M3 T = S - S.trace() / 3. * M3::Identity();
      inv = 3 * A53 / (cs2 * m.τ0) * std::pow(std::sqrt(1.5) * T.norm() / m.σY, m.n);
    }
  } else if (m.BINGHAM)
    inv = shear > m.σY ? A53 * m.ρ0 / (2 * m.μ) * (1 - m.σY / shear) : 0;
  else if (m.POWER_LAW)
    inv = shear > 0 ? A53 * m.ρ0 / (2 * std::pow(m.μ, 1 / m.n)) * std::pow(shear, (1 - m.n) / m.n) : 0;
  else
    inv = A53 * m.ρ0 / (2 * m.μ);
  return -cs2 * inv * A * D;
}
static M3 relax(const Par &m, double r, M3 A, double t) {
  double done = 0;
  long steps = 0;
  while (done < t && ++steps < 2000000) {
    double size = deviator(A).norm();
    if (size < 1e-13)
      break;
    M3 k1 = own_relaxation(m, r, A);
    double rate = k1.norm() / size * 2;
    double h = std::min(t - done, rate > 0 ? 0.02 / rate : t);
    M3 k2 = own_relaxation(m, r, A + h / 2 * k1);
    M3 k3 = own_relaxation(m, r, A + h / 2 * k2);
    M3 k4 = own_relaxation(m, r, A + h * k3);
    A += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    done += h;
  }
  return A;
}

static void judge_relax(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  v.guilty = e;
  if (!r || e->outcome != OK) {
    v.bad("outcome", "a uniform state ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = r->nstate >= 1;
  const Par &m = p.MPs[0];
  double rho = p.u(0), sc[32];
  for (int k = 0; k < V; k++)
    sc[k] = 1;
  sc[0] = rho;
  sc[1] = std::abs(p.u(1)) + rho * p.cmax * p.cmax;
  sc[2] = sc[3] = sc[4] = rho * p.cmax;
  auto dist = [&](const double *q) {
    M3 A;
    for (int k = 0; k < 9; k++)
      A(k / 3, k % 3) = q[5 + k];
    return A;
  };
  M3 A = dist(p.u.data());
  bool elastic = m.SOLID && !m.POWER_LAW;
  double tol = c.d("tol", 1e-12), prev = deviator(A).norm(), start = prev;
  double rate = c.d("rate", 0.2);
  for (uint32_t s = 0; s < r->nstate; s++) {
    const double *g = at(r->state[s]);
    double dt = r->prints[2 * s + 1];
    for (long k = 0; k < (long)r->size; k++) {
      int f = k % V;
      if (f < 5 || f >= 14) {
        double d = std::abs(g[k] - p.u(f)) / sc[f];
        v.most("dev", d / (s + 1));
        if (!(d <= tol * (s + 2))) {
          v.bad("changed", "after step %u %s is %.17g instead of %.17g", s + 1, cellname(p, k).c_str(), g[k], p.u(f));
          return;
        }
      } else if (f < 14) {
        double d = std::abs(g[k] - g[f]);
        v.most("spread", d / start);
        if (!(d <= c.d("even", 0.05) * start + tol * (s + 2))) {
          v.bad("uniform", "after step %u %s is %.17g but %.17g in the first cell", s + 1, cellname(p, k).c_str(), g[k], g[f]);
          return;
        }
      }
    }
    A = relax(m, rho, A, dt);
    double want = deviator(A).norm(), got = deviator(dist(g)).norm();
    v.most("grow", (got - prev) / start);
    if (!(got <= prev + c.d("growth", 1e-6) * start)) {
      v.bad("grows", "step %u increases the distortion from %.10g to %.10g", s + 1, prev, got);
      return;
    }
    if (elastic) {
      double d = (dist(g) - dist(p.u.data())).norm();
      v.most("elastic", d);
      if (!(d <= 1e-6 * (s + 2))) {
        v.bad("elastic", "after step %u an elastic solid has lost its shape by %.3g", s + 1, d);
        return;
      }
    }
    double d = std::abs(got - want) / start;
    v.most("rate", d);
    if (!(d <= rate)) {
      v.bad("rate", "after step %u the distortion is %.6g of the initial one; by the material's law it is %.6g", s + 1,
            got / start, want / start);
      return;
    }
    prev = got;
  }
}

// ---------------------------------------------------------------- C21
// the cell at position i of a row of n cells continued beyond its ends as the
// type of edge says; from: reads cell k of the row
static void continued(int i, int n, int lo, int hi, int d, const std::function<const double *(int)> &from, double *q) {
  if (i >= 0 && i < n) {
    memcpy(q, from(i), V * 8);
    return;
  }
  bool low = i < 0;
  int type = low ? lo : hi, k;
  if (type == 0)
    k = low ? 0 : n - 1;
  else if (type == 1)
    k = ((i % n) + n) % n;
  else {
    k = low ? -1 - i : 2 * n - 1 - i;
    k = std::min(n - 1, std::max(0, k));
  }
  memcpy(q, from(k), V * 8);
  double m = q[2];
  if (type == 2)
    q[2 + d] *= -1;
  else if (type == 3 || type == 4)
    for (int j = 2; j < 5; j++)
      q[j] *= -1;
  else if (type == 5)
    reflect(q, d);
  if (type == 4) { // a wall moving along x with unit speed
    q[2] += 2 * q[0];
    q[1] += (q[2] * q[2] - m * m) / (2 * q[0]);
  }
}

static void judge_edges(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Config cfg = config(c), two = cfg;
  auto t2 = c.ints("teams2");
  if (!t2.empty())
    two.teams = t2;
  bool iter = c.s("level", "step") == "iter", repeat = c.s("rel", "continue") == "repeat";
  StepOpts o = step_opts(c, p);
  o.mask.clear();
  RunOpts ro;
  if (!repeat) {
    o.steps = 1;
    p.ctol = 1e300; // (a cell of the continuation would reset the grid)
    ro.tf = c.d("dtf", 0.8) * 0.2 * p.dtref; // one step, the first being a fifth
  }
  Exec *a = iter ? exec_iter(p, cfg, ro) : exec_steps(p, cfg, o);
  Run *ra = run_of(a, 0);
  if (!usable(v, a, ra))
    return;
  if (iter && !repeat && ra->nstate != 1) {
    v.pass_over("more than one step");
    return;
  }
  v.nontrivial = changed(p, at(ra->fin));
  Problem q = p;
  int W = repeat ? 0 : N + (int)c.i("more", 0), rx = repeat ? (int)c.i("rx", 2) : 1,
      ry = repeat && p.ndim == 2 ? (int)c.i("ry", 1) : 1;
  q.nx = rx * p.nx + 2 * W;
  q.ny = p.ndim == 2 ? ry * p.ny + 2 * W : 1;
  q.ncell = q.nx * q.ny;
  q.nX(0) = q.nx;
  if (p.ndim == 2)
    q.nX(1) = q.ny;
  int Wy = p.ndim == 2 ? W : 0;
  if (!repeat)
    for (int k = 0; k < (int)q.bc.size(); k++)
      q.bc(k) = 0;
  q.u.resize(q.ncell * V);
  std::vector<double> row(p.ny * V);
  for (int i = 0; i < q.nx; i++) {
    int si = repeat ? i % p.nx : i - W;
    for (int j = 0; j < p.ny; j++)
      continued(si, p.nx, p.bc(0), p.bc(1), 0, [&](int k) { return p.u.data() + p.at(k, j); }, &row[j * V]);
    for (int j = 0; j < q.ny; j++) {
      int sj = repeat ? j % p.ny : j - Wy;
      if (p.ndim == 2)
        continued(sj, p.ny, p.bc(2), p.bc(3), 1, [&](int k) { return &row[k * V]; }, q.u.data() + q.at(i, j));
      else
        memcpy(q.u.data() + q.at(i, 0), &row[0], V * 8);
    }
  }
  Exec *b = iter ? exec_iter(q, two, ro) : exec_steps(q, two, o);
  Run *rb = run_of(b, 0);
  v.guilty = b;
  if (!rb || b->outcome != OK) {
    if (repeat)
      v.bad("outcome", "the repeated grid ends with %s", describe(b).c_str());
    else
      v.pass_over("continued: " + describe(b));
    return;
  }
  if (iter && !repeat && (rb->nstate != 1 || ra->prints[1] != rb->prints[1])) {
    v.pass_over("a shorter step of the continued grid");
    return;
  }
  if (repeat && iter && ra->nprint != rb->nprint) {
    v.bad("steps", "%d reports of the grid and %d of the repeated grid", (int)ra->nprint, (int)rb->nprint);
    return;
  }
  const double *x = at(ra->fin), *y = at(rb->fin);
  if (iter && getenv("SIM_DEBUG"))
    fprintf(stderr, "steps %.17g and %.17g\n", ra->prints[1], rb->prints[1]);
  for (int i = W; i < q.nx - W; i++)
    for (int j = Wy; j < q.ny - Wy; j++) {
      int k = p.at((i - W) % p.nx, (j - Wy) % p.ny);
      for (int m = 0; m < V; m++) {
        double s = x[k + m], t = y[q.at(i, j) + m];
        if (!same_bits(&s, &t, 1)) {
          if (getenv("SIM_DEBUG"))
            fprintf(stderr, "%d,%d component %d: %.17g and %.17g\n", i - W, j - Wy, m, s, t);
          v.bad(repeat ? "repeat" : "edge", "%s is %.17g, on the %s grid %.17g", cellname(p, k + m).c_str(), s,
                repeat ? "repeated" : "continued", t);
          if (!getenv("SIM_DEBUG"))
            return;
        }
      }
    }
  check_memory(v, b);
}

// ---------------------------------------------------------------- C22
static void judge_contact(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  Exec *e = exec_iter(p, config(c));
  Run *r = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!r || e->outcome != OK) {
    v.bad("outcome", "materials in equilibrium: the run ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = r->nstate >= 1;
  double tol = c.d("tol", 1e-6), slack = c.d("slack", 1.5), t = 0, pall = c.d("pall", 1);
  sim::Rng rg(c.i("gseed", 1) * 77 + 5);
  double h = p.dX(0);
  if (p.ndim == 2)
    h = std::max(h, p.dX(1));
  std::string geom = c.s("geom");
  bool planar = p.mats.size() == 2 && (geom == "layer" || geom == "rlayer" || geom == "ylayer" || geom == "oblique");
  bool seen[2] = {false, false};
  for (uint32_t s = 0; s < r->nstate; s++) {
    const double *g = at(r->state[s]);
    t += r->prints[2 * s + 1];
    if (getenv("SIM_DEBUG"))
      for (int w = s ? 1 : 0; w < 2; w++)
        for (int k = 0; k < p.ncell; k++)
          fprintf(stderr, "%7.3f%c", (w ? g : p.u.data())[k * V + V - LSET] / h, k % p.ny == p.ny - 1 ? '\n' : ' ');
    for (int k = 0; k < p.ncell; k++) {
      const double *q = g + k * V;
      int mi = own_material(q), i = k / p.ny, j = k % p.ny;
      const Material &m = p.mats[mi];
      // where the matter of this cell was in the beginning
      double X = (i + 0.5) * p.dX(0) - p.wind(0) * t, Y = p.ndim == 2 ? (j + 0.5) * p.dX(1) - p.wind(1) * t : 0;
      bool inflow = X < 0 || X > p.nx * p.dX(0) || (p.ndim == 2 && (Y < 0 || Y > p.ny * p.dX(1)));
      double φ = geometry(c, p, 0, X, Y, rg);
      if (!inflow && std::abs(φ) > slack * h && mi != (φ >= 0 ? (int)p.mats.size() - 1 : 0)) {
        v.bad("place", "after step %u %s is of material %d although the matter there is %g cells within the other", s + 1,
              cellname(p, k * V).c_str(), mi, std::abs(φ) / h);
        return;
      }
      if (!inflow && planar && std::abs(φ) < 2 * h) {
        double off = std::abs(q[V - LSET] - φ) / h;
        v.most("phi", off);
        if (!(off <= c.d("phitol", 1e9))) {
          v.bad("place", "after step %u the interface next to %s is off by %g of a cell", s + 1, cellname(p, k * V).c_str(), off);
          return;
        }
      }
      if (m.par.EOS == EOS_VAC)
        continue;
      seen[mi > 0] = true;
      double cr = own_speed(m.par, m.rho, pall), pr = own_pressure(q, m.par);
      double dp = std::abs(pr - pall) / (m.rho * cr * cr), dv = 0;
      for (int d = 0; d < 3; d++)
        dv = std::max(dv, std::abs(q[2 + d] / q[0] - p.wind(d)) / cr);
      v.most("p", dp);
      v.most("v", dv);
      v.most("rho", std::abs(q[0] - m.rho) / m.rho);
      if (!(dp <= tol) || !(dv <= tol) || !(std::abs(q[0] - m.rho) <= c.d("dense_tol", 1e-3) * m.rho)) {
        v.bad("equilibrium", "after step %u %s: pressure %.17g of %g, velocity off by %.3g of the speed of sound, density %.17g of %g",
              s + 1, cellname(p, k * V).c_str(), pr, pall, dv, q[0], m.rho);
        return;
      }
    }
  }
}

// ---------------------------------------------------------------- waves at interfaces
static double own_impedance(const Material &m, double pr) {
  if (m.par.EOS == EOS_VAC)
    return 0;
  double q[V] = {0}, v[3] = {0, 0, 0};
  Eigen::Matrix3d A = Eigen::Matrix3d::Identity() * std::cbrt(m.rho / m.par.ρ0);
  set_cell(q, m, m.rho, pr, v, A, 0.5);
  // shear strain of a fluid is gone within a step
  return m.rho * (m.par.SOLID ? own_max_speed(q, m.par, 0) : own_c0(m.par, m.rho, pr));
}

static void judge_impact(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  sim::Rng r(c.i("icseed", 1) * 37 + 3);
  double th = c.d("angle", 0), h = p.dX(0), eps = c.d("eps", 1e-4), pall = c.d("pall", 1);
  Eigen::Vector3d n(std::cos(th), std::sin(th), 0), t(-std::sin(th), std::cos(th), 0);
  if (p.ndim == 1)
    n = Eigen::Vector3d(std::cos(th) < 0 ? -1 : 1, 0, 0), t = Eigen::Vector3d(0, 1, 0);
  bool axis = std::abs(n(0)) > 0.999 || std::abs(n(1)) > 0.999;
  int nm = (int)p.mats.size(); // two materials, the second one may be a vacuum
  double P[2], u[2], w[2][2], Z[2], sp[2];
  bool vac = p.mats[nm - 1].par.EOS == EOS_VAC;
  for (int k = 0; k < 2; k++) {
    const Material &m = p.mats[k];
    double z0 = own_impedance(m, vac ? 0 : pall), c0 = z0 / std::max(m.rho, 1e-300);
    bool none = m.par.EOS == EOS_VAC;
    P[k] = none ? 0 : (vac ? 0 : pall) + eps * z0 * c0 * r.in(-1, 1);
    u[k] = none ? 0 : eps * c0 * r.in(-1, 1);
    for (int d = 0; d < 2; d++)
      w[k][d] = c.i("slide", 0) && !none ? c0 * r.in(-.1, .1) : 0;
    Z[k] = own_impedance(m, P[k]);
    sp[k] = none ? 1e300 : Z[k] / m.rho;
  }
  double Ps = (Z[1] * P[0] + Z[0] * P[1] + Z[0] * Z[1] * (u[0] - u[1])) / (Z[0] + Z[1]),
         us = (Z[0] * u[0] + Z[1] * u[1] + P[0] - P[1]) / (Z[0] + Z[1]);
  // the place of the interface such that the waves take as long to either side
  double L[2] = {p.nx * h, p.ndim == 2 ? p.ny * p.dX(1) : 1e300}, len = 1e300;
  for (int d = 0; d < p.ndim; d++)
    len = std::min(len, L[d] / std::max(1e-9, std::abs(n(d))));
  double f0 = vac ? 0.75 : sp[0] / (sp[0] + sp[1]);
  f0 = std::min(0.8, std::max(0.2, f0));
  Eigen::Vector3d mid(L[0] / 2, p.ndim == 2 ? L[1] / 2 : 0, 0);
  if (!axis)
    f0 = 0.5;
  mid += n * (f0 - 0.5) * len * (axis ? 1 : 0.5);
  double T = 0.8 * std::min(f0 * len / sp[0], vac ? 1e300 : (1 - f0) * len / sp[1]);
  if (!axis)
    T *= 0.6;
  p.tf = T;
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      double *q = p.u.data() + p.at(i, j);
      Eigen::Vector3d x((i + 0.5) * h, p.ndim == 2 ? (j + 0.5) * p.dX(1) : 0, 0);
      double φ = n.dot(x - mid);
      memset(q, 0, V * sizeof(double));
      for (int k = V - LSET; k < V; k++)
        q[k] = k == V - LSET ? φ : -1;
      int k = φ >= 0;
      const Material &m = p.mats[k];
      if (m.par.EOS == EOS_VAC)
        continue;
      double vv[3];
      for (int d = 0; d < 3; d++)
        vv[d] = u[k] * n(d) + (axis ? w[k][0] * t(d) : 0) + w[k][1] * (d == 2);
      set_cell(q, m, m.rho, P[k], vv, Eigen::Matrix3d::Identity() * std::cbrt(m.rho / m.par.ρ0), 0.5);
    }
  Exec *e = exec_iter(p, config(c));
  Run *run = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!run || e->outcome != OK) {
    v.bad("outcome", "two bodies that meet: the run ends with %s", describe(e).c_str());
    return;
  }
  const double *g = at(run->fin);
  v.nontrivial = changed(p, g);
  double end = 0;
  for (uint32_t k = 0; k < run->nstate; k++)
    end += run->prints[2 * k + 1];
  if (!(std::abs(end - T) < 1e-6 * T)) {
    std::string what;
    const double *z = run->nstate ? at(run->state[run->nstate - 1]) : g;
    for (int k = 0; k < p.ncell * V && what.empty(); k++)
      if (!std::isfinite(z[k]))
        what = ", NaN in " + cellname(p, k);
    if (getenv("SIM_DEBUG"))
      for (int b = 2; b >= 0; b--)
        for (int i = 0; i < p.nx; i++)
          for (int j = 0; j < p.ny && run->nstate > 2; j++) {
            fprintf(stderr, "%u %d,%d:", run->nstate - b, i, j);
            for (int k = 0; k < V; k++)
              fprintf(stderr, " %.10g", at(run->state[run->nstate - 1 - b])[p.at(i, j) + k]);
            fprintf(stderr, "\n");
          }
    v.bad("end", "two bodies that meet: the run ends at %g of %g%s", end, T, what.c_str());
    return;
  }
  double aP = std::abs(Ps - P[0]) + std::abs(Ps - P[1]), au = std::abs(us - u[0]) + std::abs(us - u[1]);
  // (one of the two may be small by chance)
  double zm = vac ? Z[0] : 2 * Z[0] * Z[1] / (Z[0] + Z[1]), aa = std::max(aP, zm * au);
  double tol = c.d("tol", axis ? 0.15 : 0.2), c0[2] = {sp[0], sp[1]};
  int seen[2] = {0, 0};
  double side[2] = {0, 0};
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      const double *q = g + p.at(i, j);
      int k = own_material(q);
      Eigen::Vector3d x((i + 0.5) * h, p.ndim == 2 ? (j + 0.5) * p.dX(1) : 0, 0);
      double φ = n.dot(x - mid), s = std::abs(t.dot(x - mid));
      if (k > 1 || p.mats[k].par.EOS == EOS_VAC || std::abs(φ) > 0.4 * c0[k] * T)
        continue;
      if (!axis && s > 0.2 * len)
        continue;
      seen[k]++;
      const Material &m = p.mats[k];
      Q14 qq;
      for (int z = 0; z < 14; z++)
        qq(z) = q[z];
      Eigen::Vector3d vel = qq.segment<3>(2) / q[0];
      double un = vel.dot(n), Pn = 0;
      for (int d = 0; d < 2; d++) {
        Q14 fl = own_flux(qq, m.par, d);
        for (int z = 0; z < 2; z++)
          Pn += n(d) * n(z) * (fl(2 + z) - q[0] * vel(z) * vel(d));
      }
      double dP = std::abs(Pn - Ps) / aa, du = std::abs(un - us) * zm / aa;
      v.most("P", dP);
      v.most("u", du);
      if (getenv("SIM_DEBUG"))
        fprintf(stderr, "%d,%d mat %d φ %.2f P %.4f u %.4f\n", i, j, k, φ / h, (Pn - pall) / aa, un * zm / aa);
      if (!(dP <= tol) || !(du <= tol)) {
        v.bad("wave", "%s: the normal pressure between the two bodies is %.10g instead of %.10g, and the velocity %.10g instead of %.10g",
              cellname(p, p.at(i, j)).c_str(), Pn, Ps, un, us);
        return;
      }
      if (!axis) {
        side[k] += vel.dot(t) * Z[k] / aa;
        continue;
      }
      double slip = std::max(std::abs(vel.dot(t) - w[k][0]), std::abs(vel(2) - w[k][1])) / c0[k];
      v.most("slip", slip);
      if (!(slip <= c.d("sliptol", 3e-4))) {
        v.bad("slip", "%s: bodies sliding along each other: velocity %g,%g along the interface instead of %g,%g",
              cellname(p, p.at(i, j)).c_str(), vel.dot(t), vel(2), w[k][0], w[k][1]);
        return;
      }
    }
  for (int k = 0; k < 2; k++)
    if (!seen[k] && p.mats[k].par.EOS != EOS_VAC) {
      v.bad("gone", "the waves from the interface have passed %.3g cells but none is left of material %d", c0[k] * T / h, k);
      return;
    }
  for (int k = 0; k < 2 && !axis; k++) // nothing pushes them sideways
    if (seen[k]) {
      double off = std::abs(side[k]) / seen[k];
      v.most("side", off);
      if (!(off <= c.d("sidetol", 0.07))) {
        v.bad("side", "material %d, met without shear, moves along the interface by %g of the jump", k, off);
        return;
      }
    }
}

// ---------------------------------------------------------------- C24
// The equations, integrated in time on a periodic grid by the harness's own
// sixth-order differences and fourth-order time steps.
struct Reference {
  const Problem &p;
  const Par &m;
  Eigen::Vector3d force;
  int n;
  typedef std::vector<Q14, Eigen::aligned_allocator<Q14>> Grid;
  Reference(const Problem &p, const Eigen::Vector3d &force) : p(p), m(p.mats[0].par), force(force), n(p.ncell) {}
  int cell(int i, int j) const { return ((i + p.nx) % p.nx) * p.ny + (j + p.ny) % p.ny; }
  Grid rate(const Grid &q) const {
    static const double w[3] = {3. / 4, -3. / 20, 1. / 60};
    Grid r(n, Q14::Zero()), f(n);
    for (int d = 0; d < p.ndim; d++) {
      for (int k = 0; k < n; k++)
        f[k] = own_flux(q[k], m, d);
      for (int i = 0; i < p.nx; i++)
        for (int j = 0; j < p.ny; j++) {
          int k = cell(i, j);
          Q14 df = Q14::Zero(), dq = Q14::Zero();
          for (int s = 1; s <= 3; s++) {
            int a = d ? cell(i, j + s) : cell(i + s, j), b = d ? cell(i, j - s) : cell(i - s, j);
            df += w[s - 1] / p.dX(d) * (f[a] - f[b]);
            dq += w[s - 1] / p.dX(d) * (q[a] - q[b]);
          }
          r[k] -= df;
          // v_k (dA_ij/dx_k - dA_ik/dx_j)
          Eigen::Vector3d v = q[k].segment<3>(2) / q[k](0);
          for (int a = 0; a < 3; a++)
            for (int b = 0; b < 3; b++) {
              r[k](5 + 3 * a + b) -= v(d) * dq(5 + 3 * a + b);
              if (b == d)
                for (int z = 0; z < 3; z++)
                  r[k](5 + 3 * a + b) += v(z) * dq(5 + 3 * a + z);
            }
        }
    }
    return r;
  }
  void advance(Grid &q, double t) const { // without relaxation
    auto add = [&](const Grid &a, double h, const Grid &b) {
      Grid r(n);
      for (int k = 0; k < n; k++)
        r[k] = a[k] + h * b[k];
      return r;
    };
    Grid k1 = rate(q), k2 = rate(add(q, t / 2, k1)), k3 = rate(add(q, t / 2, k2)), k4 = rate(add(q, t, k3));
    for (int k = 0; k < n; k++)
      q[k] += t / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]);
  }
  void relaxed(Grid &q, double t) const {
    for (auto &z : q) {
      Eigen::Matrix3d A;
      for (int k = 0; k < 9; k++)
        A(k / 3, k % 3) = z(5 + k);
      A = relax(m, z(0), A, t);
      for (int k = 0; k < 9; k++)
        z(5 + k) = A(k / 3, k % 3);
      z.segment<3>(2) += t * force;
    }
  }
};

static void judge_evolve(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  const Material &m = p.mats[0];
  Exec *e = exec_iter(p, config(c));
  Run *run = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!run || e->outcome != OK) {
    v.bad("outcome", "a smooth motion ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = changed(p, at(run->fin));
  Eigen::Vector3d force(p.MPs[0].δp(0), p.MPs[0].δp(1), p.MPs[0].δp(2));
  Reference ref(p, force);
  Reference::Grid q(p.ncell), q0;
  for (int k = 0; k < p.ncell; k++)
    for (int z = 0; z < 14; z++)
      q[k](z) = p.u(k * V + z);
  q0 = q;
  double c0 = own_speed(m.par, m.rho, m.p), t = 0;
  double unit[4] = {m.rho, m.rho * c0 * c0, m.rho * c0, 1};
  auto group = [](int k) { return k == 0 ? 0 : k == 1 ? 1 : k < 5 ? 2 : 3; };
  static const char *name[] = {"density", "energy", "momentum", "distortion"};
  for (uint32_t s = 0; s < run->nstate; s++) {
    double dt = run->prints[2 * s + 1];
    for (int k = 0; k < 2; k++) {
      ref.relaxed(q, dt / 4);
      ref.advance(q, dt / 2);
      ref.relaxed(q, dt / 4);
    }
    t += dt;
  }
  if (c.i("both", 0)) { // the other solver of the predictor's equations
    Problem o = p;
    o.stiff = !p.stiff;
    Exec *b = exec_iter(o, config(c));
    Run *rb = run_of(b, 0);
    check_memory(v, b);
    if (!rb || b->outcome != OK || rb->size != run->size) {
      v.bad("outcome", "the other solver of the predictor ends with %s", describe(b).c_str());
      return;
    }
    const double *x = at(run->fin), *y = at(rb->fin);
    double change = 0, off = 0;
    int where = 0;
    for (int k = 0; k < p.ncell; k++)
      for (int z = 0; z < 14; z++) {
        change = std::max(change, std::abs(x[k * V + z] - q0[k](z)) / unit[group(z)]);
        double d = std::abs(x[k * V + z] - y[k * V + z]) / unit[group(z)];
        if (!(d <= off))
          off = d, where = k * V + z;
      }
    v.most("both", off / change);
    if (!(off <= c.d("bothtol", 1e-3) * change)) {
      v.bad("both", "%s is %.12g with one and %.12g with the other solver of the predictor, the largest change being %.3g",
            cellname(p, where).c_str(), x[where], y[where], change);
      return;
    }
  }
  // how much every quantity changes, and how far the run is from that
  double size[14] = {0}, off[14] = {0}, most = 0;
  const double *g = at(run->fin);
  for (int k = 0; k < p.ncell; k++)
    for (int z = 0; z < 14; z++) {
      size[z] += std::pow((q[k](z) - q0[k](z)) / unit[group(z)], 2) / p.ncell;
      off[z] += std::pow((q[k](z) - g[k * V + z]) / unit[group(z)], 2) / p.ncell;
    }
  for (double z : size)
    most = std::max(most, std::sqrt(z));
  if (!(most > 1e-4)) {
    v.skip = true;
    return;
  }
  double tol = c.d("tol", 0.12) * (p.flux != 0 ? 1 : p.ndim == 1 ? 1.5 : 2); // (the Rusanov flux is the most diffusive)
  for (int z = 0; z < 14; z++) {
    double part = std::max(std::sqrt(size[z]), 0.3 * most), err = std::sqrt(off[z]) / part;
    v.most(name[group(z)], err);
    if (!(err <= tol)) {
      v.bad("motion", "after %g in %u steps component %d (%s) is on average %.3g off from what the equations give, having changed by %.3g (largest change %.3g)",
            t, run->nstate, z, name[group(z)], std::sqrt(off[z]), std::sqrt(size[z]), most);
      return;
    }
  }
}

// ---------------------------------------------------------------- C25
static void judge_still(const Case &c, Verdict &v) {
  Problem p = make_problem(c);
  const Material &m = p.mats[0];
  sim::Rng r(c.i("icseed", 1) * 41 + 9);
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  if (c.i("rot", 0)) {
    Eigen::Vector3d ax(r.in(-1, 1), r.in(-1, 1), r.in(-1, 1));
    R = Eigen::AngleAxisd(r.in(0, 3), ax.normalized()).toRotationMatrix();
  }
  // pieces of at least four cells, of different density
  auto cut = [&](int n, bool some) {
    std::vector<int> piece(n);
    for (int k = 0, id = 0, len = 4 + (int)r.below(4); k < n; k++) {
      if (some && len == 0 && n - k >= 4) {
        id++;
        len = 4 + (int)r.below(4);
      } else if (len == 0)
        len = 1;
      piece[k] = id;
      len--;
    }
    return piece;
  };
  int dir = (int)c.i("dir", -1);
  std::vector<int> px = cut(p.nx, dir != 1), py = cut(p.ny, p.ndim == 2 && dir != 0);
  double rho[64][64];
  for (auto &a : rho)
    for (double &z : a)
      z = m.rho * std::exp(r.in(-1, 1) * c.d("jump", 1));
  double v0[3] = {0, 0, 0};
  for (int i = 0; i < p.nx; i++)
    for (int j = 0; j < p.ny; j++) {
      double q = rho[px[i]][py[j]];
      set_cell(p.u.data() + p.at(i, j), m, q, m.p, v0, std::cbrt(q / m.par.ρ0) * R, 0.5);
    }
  p.tf *= std::exp(-0.5 * c.d("jump", 1)); // (the lightest parts are the fastest)
  Exec *e = exec_iter(p, config(c));
  Run *run = run_of(e, 0);
  v.guilty = e;
  check_memory(v, e);
  if (!run || e->outcome != OK) {
    v.bad("outcome", "matter at rest ends with %s", describe(e).c_str());
    return;
  }
  v.nontrivial = run->nstate > 0;
  double c0 = own_speed(m.par, m.rho, m.p), unit[4] = {m.rho, m.rho * c0 * c0, m.rho * c0, 1}, tol = c.d("tol", 3e-8);
  static const char *name[] = {"density", "energy", "momentum", "distortion"};
  for (uint32_t s = 0; s < run->nstate; s++) {
    const double *g = at(run->state[s]);
    for (int k = 0; k < p.ncell; k++)
      for (int z = 0; z < 14; z++) {
        int a = z == 0 ? 0 : z == 1 ? 1 : z < 5 ? 2 : 3;
        double off = std::abs(g[k * V + z] - p.u(k * V + z)) / unit[a];
        v.most(name[a], off);
        if (!(off <= tol)) {
          v.bad("still", "after step %u the %s in %s is %.12g instead of %.12g, though all is at rest at one pressure", s + 1, name[a],
                cellname(p, k * V + z).c_str(), g[k * V + z], p.u(k * V + z));
          return;
        }
      }
  }
}

// ----------------------------------------------------------------
static void judge(const Case &c, Verdict &v) {
  std::string p = c.s("prop");
  if (p == "workers")
    judge_workers(c, v);
  else if (p == "still")
    judge_still(c, v);
  else if (p == "evolve")
    judge_evolve(c, v);
  else if (p == "conserved")
    judge_conserved(c, v);
  else if (p == "uniform")
    judge_uniform(c, v);
  else if (p == "clock")
    judge_clock(c, v);
  else if (p == "history")
    judge_history(c, v);
  else if (p == "nan")
    judge_nan(c, v);
  else if (p == "memory")
    judge_memory(c, v);
  else if (p == "alloc")
    judge_alloc(c, v);
  else if (p == "interrupt")
    judge_interrupt(c, v);
  else if (p == "materials")
    judge_materials(c, v);
  else if (p == "footprint")
    judge_footprint(c, v);
  else if (p == "reach")
    judge_reach(c, v);
  else if (p == "lanes")
    judge_lanes(c, v);
  else if (p == "distortion")
    judge_distortion(c, v);
  else if (p == "symmetry")
    judge_symmetry(c, v);
  else if (p == "relax")
    judge_relax(c, v);
  else if (p == "reactant")
    judge_reactant(c, v);
  else if (p == "contact")
    judge_contact(c, v);
  else if (p == "impact")
    judge_impact(c, v);
  else if (p == "edges")
    judge_edges(c, v);
  else
    throw std::runtime_error("unknown property " + p);
}
