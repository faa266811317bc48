// MODULES: dec phr ec sw incr dhs nlp
// tuning of weights: k-best batch MIRA against its definition, downhill simplex against the points it evaluated
#include "vh.h"
#include "KbMiraLlWu.h"
#include "MiraBleu.h"
#include "MiraGtm.h"
#include "MiraWer.h"
#include "MiraChrF.h"
#include "step_by_step_dhs.h"
#include <cfloat>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
using namespace vh;
typedef std::vector<std::string> VS;
typedef std::vector<double> VD;

struct Mute { std::streambuf* o; Mute() : o(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cerr.rdbuf(o); } };
static std::string show(const VD& v) { std::string s; char b[40]; for (double x : v) { snprintf(b, 40, "%s%.9g", s.empty() ? "" : " ", x); s += b; } return s; }

struct Data { VS ref; std::vector<VS> nb; std::vector<std::vector<VD>> sc; VD w; };

static BaseMiraScorer* scorer(int k) {
  switch (k) { case 0: return new MiraBleu; case 1: return new MiraGtm; case 2: return new MiraWer; default: return new MiraChrF; }
}

// ---------------------------------------------------------------- the definition
struct Mira {
  double C, decay; unsigned J, patience, starts;
  BaseMiraScorer& s;
  bool single;
  unsigned updates = 0, skipped = 0;
  static double dot(const VD& a, const VD& b, size_t n) { double x = 0; for (size_t k = 0; k < n; ++k) x += a[k] * b[k]; return x; }
  VD run(const Data& d) {
    size_t n = d.ref.size(), m = d.w.size();
    srand(KBMIRA_RANDOM_SEED);
    s.resetBackgroundCorpus();
    VD best = d.w; double bestq = 0;
    for (unsigned st = 0; st < starts; ++st) {
      VD w = d.w, sum = d.w; unsigned cnt = 1;
      double q0 = 0; unsigned at = 0;
      for (unsigned j = 0; j < J; ++j) {
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; ++i) order[i] = i;
        if (!single) for (size_t k = n; k-- > 1;) std::swap(order[k], order[rand() % (int)k]);
        for (size_t i : order) {
          const VS& nb = d.nb[i];
          if (nb.empty()) { ++skipped; continue; }
          VD model(nb.size()), qual(nb.size()); std::vector<std::vector<unsigned>> stat(nb.size());
          for (size_t k = 0; k < nb.size(); ++k) { model[k] = dot(w, d.sc[i][k], m); s.sentBackgroundScore(nb[k], d.ref[i], qual[k], stat[k]); }
          size_t hope = 0, fear = 0;
          for (size_t k = 1; k < nb.size(); ++k) { if (model[k] + qual[k] > model[hope] + qual[hope]) hope = k; if (model[k] - qual[k] > model[fear] - qual[fear]) fear = k; }
          if (!(qual[hope] > qual[fear])) continue;
          VD diff(m); for (size_t k = 0; k < m; ++k) diff[k] = d.sc[i][hope][k] - d.sc[i][fear][k];
          double loss = (qual[hope] - qual[fear]) - dot(w, diff, m);
          if (loss > 0) {
            double eta = std::min(C, loss / dot(diff, diff, m));
            for (size_t k = 0; k < m; ++k) { w[k] += eta * diff[k]; sum[k] += w[k]; }
            ++cnt; ++updates;
          }
          s.updateBackgroundCorpus(stat[hope], decay);
        }
        VD avg(m); for (size_t k = 0; k < m; ++k) avg[k] = sum[k] / cnt;
        double q = quality(d, avg);
        if (q > q0) { at = j; q0 = q; if (q > bestq) { bestq = q; best = avg; } }
        if (j - at > patience) break;
      }
    }
    return best;
  }
  double quality(const Data& d, const VD& w) {
    VS out;
    for (size_t i = 0; i < d.ref.size(); ++i) {
      size_t b = 0; double x = -DBL_MAX; std::string t;
      for (size_t k = 0; k < d.nb[i].size(); ++k) { double y = dot(w, d.sc[i][k], w.size()); if (y > x) { x = y; b = k; t = d.nb[i][b]; } }
      out.push_back(t);
    }
    double q;
    if (single) s.sentScore(out[0], d.ref[0], q); else s.corpusScore(out, d.ref, q);
    return q;
  }
};

static std::string sent(Ctx& c, int nw, int l) {
  static const char* W[] = {"a", "b", "c", "d", "la", "casa", ".", "\xc3\xa9"};
  std::string s;
  for (int i = 0; i < l; ++i) { if (i) s += " "; s += W[c.rng.below(nw)]; }
  return s;
}
static std::string edit(Ctx& c, const std::string& x, int nw) {
  VS v; std::istringstream is(x); std::string t;
  while (is >> t) v.push_back(t);
  int k = c.rng.range(0, 3);
  for (int i = 0; i < k; ++i) {
    int op = c.rng.below(3); size_t p = v.empty() ? 0 : c.rng.below(v.size());
    if (op == 0 && !v.empty()) v.erase(v.begin() + p);
    else if (op == 1 && !v.empty()) v[p] = sent(c, nw, 1);
    else v.insert(v.begin() + p, sent(c, nw, 1));
  }
  std::string s; for (auto& w : v) { if (!s.empty()) s += ' '; s += w; }
  return s;
}

static Data data(Ctx& c, bool fl) {
  Data d;
  int n = c.rng.range(1, c.rng.chance(.2) ? 12 : 4), m = c.rng.range(1, 8), nw = c.rng.range(2, 8), maxl = c.rng.chance(.3) ? 3 : 10;
  bool bad = c.rng.chance(.06);          // nothing of the lists is right
  double mag = c.rng.chance(.2) ? 1000 : 10;
  auto num = [&](double x) { return fl ? (double)(float)x : x; };
  for (int k = 0; k < m; ++k) d.w.push_back(c.rng.chance(.1) ? 0 : num(c.rng.chance(.1) ? -c.rng.unit() : c.rng.unit()));
  for (int i = 0; i < n; ++i) {
    d.ref.push_back(bad ? "zz zz" : sent(c, nw, c.rng.chance(.05) ? 0 : c.rng.range(1, maxl)));
    VS l; std::vector<VD> s;
    int e = c.rng.chance(.06) ? 0 : c.rng.range(1, c.rng.chance(.1) ? 60 : 10);
    for (int k = 0; k < e; ++k) {
      l.push_back(c.rng.chance(.6) ? edit(c, bad ? "a b" : d.ref.back(), nw) : sent(c, nw, c.rng.range(c.rng.chance(.1) ? 0 : 1, maxl)));
      if (fl && l.back().empty()) l.back() = "a";
      VD x; for (int q = 0; q < m; ++q) x.push_back(c.rng.chance(.1) ? 0 : c.rng.chance(.5) ? -c.rng.range(0, 20) : -c.rng.unit() * mag);
      if (!s.empty() && c.rng.chance(.1)) x = s[c.rng.below(s.size())];
      s.push_back(x);
    }
    d.nb.push_back(l); d.sc.push_back(s);
  }
  return d;
}

static void describe(Ctx& c, const Data& d) {
  c.note("weights %s", show(d.w).c_str());
  for (size_t i = 0; i < d.ref.size(); ++i) {
    c.note("reference [%s]", d.ref[i].c_str());
    for (size_t k = 0; k < d.nb[i].size(); ++k) c.note("   [%s] %s", d.nb[i][k].c_str(), show(d.sc[i][k]).c_str());
  }
}

static void check(Ctx& c, const std::string& what, const VD& got, const VD& want, const Data& d, double tol) {
  c.eval();
  if (got.size() != d.w.size()) c.fail(what + ":size", "%zu weights for %zu features", got.size(), d.w.size());
  for (double x : got) if (!std::isfinite(x)) c.fail(what + ":finite", "weights %s", show(got).c_str());
  for (size_t k = 0; k < got.size(); ++k)
    if (fabs(got[k] - want[k]) > tol * (1 + fabs(want[k]))) c.fail(what + ":weights", "weights %s, by its definition %s", show(got).c_str(), show(want).c_str());
}

static void mira(Ctx& c) {
  Data d = data(c, false);
  int sc = c.rng.below(4);
  double C = c.rng.chance(.5) ? .01 : c.rng.chance(.5) ? .1 : 1, g = c.rng.chance(.5) ? .999 : c.rng.unit();
  unsigned J = c.rng.range(1, 25), pat = c.rng.range(1, 20), st = c.rng.range(1, 3);
  std::unique_ptr<BaseMiraScorer> a(scorer(sc)), b(scorer(sc));
  KbMiraLlWu k(C, g, J, pat, st);
  c.note("scorer %d C %g decay %g J %u patience %u starts %u", sc, C, g, J, pat, st);
  describe(c, d);
  if (!k.link_scorer(a.get())) c.fail("link", "a MIRA scorer is refused");
  VD got(c.rng.below(3), 7), got2;
  bool single = d.ref.size() == 1 && c.rng.chance(.5);
  auto go = [&](VD& o) { if (single) k.update(d.ref[0], d.nb[0], d.sc[0], d.w, o); else k.updateClosedCorpus(d.ref, d.nb, d.sc, d.w, o); };
  go(got);
  Mira m{C, g, J, pat, st, *b, single};
  VD want = m.run(d);
  check(c, single ? "sentence" : "corpus", got, want, d, 1e-9);
  // what it did before is of no consequence
  if (c.rng.chance(.3)) { Data o = data(c, false); VD t; k.updateClosedCorpus(o.ref, o.nb, o.sc, o.w, t); for (int i = c.rng.below(5); i--;) rand(); }
  go(got2);
  if (got2 != got) c.fail("repeat", "weights %s, the second time %s", show(got).c_str(), show(got2).c_str());
  c.count("mira_updates", m.updates); c.count("empty_lists", m.skipped > 0); c.count(single ? "mira_sentences" : "mira_corpora");
  c.count("scorer_" + std::to_string(sc));
  if (got != d.w) c.count("moved"); else c.count("unmoved");
  c.maxi("features", d.w.size()); c.maxi("sentences", d.ref.size());
  if (m.updates) c.distinct(show(got));
}

// ---------------------------------------------------------------- the tool that reads n-best lists
static int sys(const std::string& cmd) { int r = system(cmd.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 256; }

static void tool(Ctx& c) {
  Data d = data(c, true);
  describe(c, d);
  const std::string& t = c.scratch;
  size_t m = d.w.size(), n = d.ref.size();
  std::vector<bool> inc(m, true);
  bool va = c.rng.chance(.5);
  if (va) for (size_t k = 0; k < m; ++k) inc[k] = c.rng.chance(.7);
  int odd = c.rng.chance(.2) ? c.rng.range(1, 3) : 0;   // 1: other number of references, 2: other number of scores, 3: a list that is missing
  bool shortw = false;
  {
    std::ofstream r(t + "/ref"), l(t + "/lists");
    for (size_t i = 0; i < n; ++i) {
      r << d.ref[i] << "\n";
      std::string f = t + "/nb" + std::to_string(i);
      l << f << "\n";
      if (odd == 3 && i + 1 == n) { unlink(f.c_str()); continue; }
      std::ofstream o(f);
      o << "#"; for (size_t k = 0; k < m; ++k) o << (k ? " , f" : " f") << k << " " << d.w[k]; o << "\n";
      char b[40];
      for (size_t k = 0; k < d.nb[i].size(); ++k) {
        o << -1.5 * k << " |||";
        for (size_t q = 0; q < m; ++q) {
          if (odd == 2 && i + 1 == n && k + 1 == d.nb[i].size() && q + 1 == m) { shortw = true; continue; }
          snprintf(b, 40, "%.17g", d.sc[i][k][q]); o << " " << b;
        }
        o << " ||| " << d.nb[i][k] << "\n";
      }
    }
    if (odd == 1) r << "a b\n";
  }
  std::string cmd = std::string(getenv("VERIF_PREFIX")) + "/bin/thot_ll_weight_upd_nblist -w";
  char b[40];
  for (double x : d.w) { snprintf(b, 40, " %.9g", x); cmd += b; }
  if (va) { cmd += " -va"; for (bool x : inc) cmd += x ? " 1" : " 0"; }
  cmd += " -nb " + t + "/lists -r " + t + "/ref > " + t + "/out 2> " + t + "/err";
  c.note("%s", cmd.c_str());
  int rc = sys(cmd);
  std::stringstream e; e << std::ifstream(t + "/err").rdbuf();
  if (rc == 77 || rc > 1) c.fail("tool:status", "ended with %d: %s", rc, e.str().c_str());
  if (odd && (odd != 2 || (shortw && inc[m - 1]))) {
    if (rc == 0) c.fail("tool:bad-input", "no error for %s", odd == 1 ? "more references than lists" : odd == 2 ? "an entry with too few scores" : "a list that does not exist");
    c.count("bad_inputs"); c.eval();
    return;
  }
  if (odd == 2) return;
  if (rc != 0) c.fail("tool:status", "ended with %d: %s", rc, e.str().c_str());
  Data s = d; s.w.clear();
  for (size_t k = 0; k < m; ++k) if (inc[k]) s.w.push_back(d.w[k]);
  for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < d.nb[i].size(); ++k) { s.sc[i][k].clear(); for (size_t q = 0; q < m; ++q) if (inc[q]) s.sc[i][k].push_back(d.sc[i][k][q]); }
  MiraBleu mb; Mira x{.01, .999, 60, 20, 1, mb, false};
  VD r = x.run(s), want; size_t j = 0;
  for (size_t k = 0; k < m; ++k) want.push_back(inc[k] ? r[j++] : 0);
  std::ifstream o(t + "/out"); std::string line; std::getline(o, line);
  std::istringstream is(line); std::string w; VD got; is >> w >> w;
  while (is >> w) got.push_back(atof(w.c_str()));
  check(c, "tool", got, want, d, 2e-5);
  c.count("tool_updates"); c.count("excluded", va);
  c.distinct("t" + show(got));
}

// ---------------------------------------------------------------- downhill simplex
static void simplex(Ctx& c) {
  int n = c.rng.range(1, c.rng.chance(.3) ? 8 : 3), kind = c.rng.below(6);
  VD opt, dia, st;
  for (int i = 0; i < n; ++i) { opt.push_back(c.rng.unit() * 4 - 2); dia.push_back(.2 + c.rng.unit() * 3); st.push_back(c.rng.chance(.2) ? 0 : c.rng.unit() * 2 - 1); }
  double mix = c.rng.unit();
  auto f = [&](const double* x) -> double {
    double v = 0;
    switch (kind) {
      case 0: for (int i = 0; i < n; ++i) v += dia[i] * (x[i] - opt[i]) * (x[i] - opt[i]); return v;
      case 1: for (int i = 0; i < n; ++i) { double y = x[i] - opt[i] + (i ? mix * (x[i - 1] - opt[i - 1]) : 0); v += dia[i] * y * y; } return v;
      case 2: for (int i = 0; i + 1 < n; ++i) v += 100 * pow(x[i + 1] - x[i] * x[i], 2) + pow(1 - x[i], 2); return n == 1 ? x[0] * x[0] : v;
      case 3: for (int i = 0; i < n; ++i) v += fabs(x[i] - opt[i]); return floor(v * 4);                                       // plateaus, as of error rates
      case 4: for (int i = 0; i < n; ++i) { if (x[i] < 0 || x[i] >= 1) return DBL_MAX; v += dia[i] * (x[i] - .4) * (x[i] - .4); } return v;   // weights between 0 and 1
      default: for (int i = 0; i < n; ++i) v += sin(3 * x[i] + opt[i]) + .05 * x[i] * x[i]; return v;
    }
  };
  if (kind == 4) for (double& x : st) x = .1 + .8 * c.rng.unit();
  double ftol = c.rng.chance(.5) ? 1e-4 : 1e-8, scale = c.rng.chance(.7) ? 1 : .1 + c.rng.unit();
  c.note("kind %d n %d start %s optimum %s ftol %g scale %g", kind, n, show(st).c_str(), show(opt).c_str(), ftol, scale);
  FILE* im = tmpfile();
  std::vector<VD> X; VD F;
  VD s, x(n); double y = 0, cur = 0; int nf = 0, rc;
  auto step = [&]() { s = st; rewind(im); return step_by_step_simplex(s.data(), n, ftol, scale, NULL, im, &nf, &y, x.data(), &cur, 0); };
  for (;;) {
    rc = step();
    c.eval();
    if (rc != DSO_EVAL_FUNC) break;
    for (double v : x) if (!std::isfinite(v)) { fclose(im); c.fail("simplex:point", "evaluation %zu is asked for at %s", F.size(), show(x).c_str()); }
    double v = f(x.data());
    X.push_back(x); F.push_back(v);
    fseek(im, 0, SEEK_END);
    fprintf(im, "%.17g\n", v);
    fflush(im);
    if (F.size() > 2500) break;
  }
  size_t N = F.size();
  c.maxi("evaluations_of_one_run", N);
  if (rc == DSO_EVAL_FUNC) {   // it may take up to 5000 iterations
    fclose(im); c.count("long_runs");
    return;
  }
  if (rc != THOT_OK) { fclose(im); c.fail("simplex:status", "%d after %zu evaluations", rc, N); }
  if (N < (size_t)n + 2 || X[0] != st) { fclose(im); c.fail("simplex:start", "%zu evaluations, the first at %s", N, X.empty() ? "" : show(X[0]).c_str()); }
  double best = F[0];
  for (double v : F) best = std::min(best, v);
  if (f(s.data()) != best || y != best) { fclose(im); c.fail("simplex:best", "the solution has the value %.12g (%.12g), the best of %zu evaluations is %.12g", y, f(s.data()), N, best); }
  if (!(cur < ftol)) { fclose(im); c.fail("simplex:tolerance", "ends with %g, the tolerance is %g", cur, ftol); }
  // interrupted anywhere and given the values known so far, it goes on where it was
  for (int t = 0; t < 3; ++t) {
    size_t k = c.rng.below(N);
    FILE* g = tmpfile();
    for (size_t i = 0; i < k; ++i) { if (c.rng.chance(.1)) fputs("\n", g); fprintf(g, "%.17g\n", F[i]); }
    rewind(g);
    VD s2 = st, x2(n); double y2, cur2; int nf2;
    int r2 = step_by_step_simplex(s2.data(), n, ftol, scale, NULL, g, &nf2, &y2, x2.data(), &cur2, 0);
    fclose(g);
    if (r2 != DSO_EVAL_FUNC || x2 != X[k]) { fclose(im); c.fail("simplex:resume", "after %zu values it asks for %s, in one run for %s", k, show(x2).c_str(), show(X[k]).c_str()); }
    c.eval();
  }
  fclose(im);
  c.count("simplex_runs"); c.count("simplex_kind_" + std::to_string(kind));
  if (kind <= 1 && n <= 3) { c.count("convex_runs"); if (best <= 1e-2 + 10 * ftol) c.count("convex_solved"); }
  if (F[0] > best) c.count("improved");
  c.distinct(show(s));
}

static void one(Ctx& c) {
  Mute m;
  if (c.mode == "tool") tool(c);
  else if (c.mode == "simplex") simplex(c);
  else mira(c);
}
int main(int argc, char** argv) { return run(argc, argv, one); }
