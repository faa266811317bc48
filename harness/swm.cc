// Word alignment models against a reference EM, brute-force scoring and round trips.
#include "vh.h"
#include "IncrIbm1AligModel.h"
#include "IncrIbm2AligModel.h"
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include "IncrLevelDbHmmP0AligModel.h"
#include "WordAligMatrix.h"

using namespace vh;
typedef _incrSwAligModel<std::vector<Prob> > Base;
typedef std::vector<int> VI;

enum Kind { IBM1, SIBM1, IBM2, SIBM2, HMM, HMMP0 };
static const char* NAME[] = {"ibm1", "smoothed-ibm1", "ibm2", "smoothed-ibm2", "hmm", "hmm-p0"};

struct Pair { VI s, t; double w; };

static double lsum(double a, double b) { if (a < b) std::swap(a, b); return a + log1p(exp(b - a)); }

// Reference EM.  Word 0 of the source is the empty word; words are 1..n.
struct Ref {
  Kind k;
  double lexf = 0.1, alf = 0.3, p0 = 0.1;
  size_t V0 = 0;                              // target vocabulary size of an untrained model
  std::set<int> tseen;
  std::map<int, std::map<int, double>> num; std::map<int, double> den;
  typedef std::tuple<int, int, int> AK;       // ibm2: j, slen, tlen; hmm: prev, slen, 0
  std::map<AK, std::map<int, double>> anum; std::map<AK, double> aden;
  std::map<size_t, std::vector<std::vector<double>>> E;
  std::map<size_t, std::map<std::tuple<int, int, int>, double>> E2;
  // sentence lengths
  double ns = 0, ssum = 0, tsum = 0;
  struct L { unsigned k = 0; double sw = 0, m = 0, s = 0; };
  std::map<int, L> len;
  bool hmm() const { return k == HMM || k == HMMP0; }
  bool two() const { return k == IBM2 || k == SIBM2; }

  double uns(int s, int t) const {
    auto i = num.find(s);
    if (i == num.end()) return -1;
    auto j = i->second.find(t);
    return j == i->second.end() ? -1 : j->second / den.at(s);
  }
  double V() const { return V0 + tseen.size(); }
  double pts(int s, int t) const {
    double u = uns(s, t);
    if (hmm()) return (1 - lexf) * (u < 0 ? 0 : u) + lexf / V();
    if (u < 0) u = 0;
    if ((k == SIBM1 || k == SIBM2) && u <= 1e-8) return 1e-8;
    return u;
  }
  double unsA(AK a, int i) const {
    auto x = anum.find(a);
    if (x == anum.end()) return -1;
    auto y = x->second.find(i);
    return y == x->second.end() ? -1 : y->second / aden.at(a);
  }
  double a2(int j, int sl, int tl, int i) const {
    double u = unsA(AK(j, sl, tl), i);
    if (u < 0) u = 0;
    if (k == SIBM2 && u == 0) return 1.0 / (sl + 1);
    return u;
  }
  static bool valid(int p, int sl, int i) { return i <= sl || p == 0 || i - sl == (p > sl ? p - sl : p); }
  double ah(int p, int sl, int i) const {
    if (!valid(p, sl, i)) return 0;
    double u;
    if (i > sl) {
      if (k == HMMP0) u = p == 0 ? p0 / sl : p0;
      else {
        int q = p == 0 ? 0 : p > sl ? p - sl : p;
        u = unsA(AK(q, sl, 0), p == 0 ? sl + 1 : q + sl);
      }
    } else {
      u = unsA(AK(p > sl ? p - sl : p, sl, 0), i);
      if (u >= 0 && k == HMMP0) u *= 1 - p0;
    }
    if (u < 0) u = 0;
    return (1 - alf) * u + alf / (p == 0 ? 2 * sl : sl + 1);
  }

  struct Aux { double cur = 0, nw = 0; };
  std::map<std::pair<int, int>, Aux> lx;
  std::map<std::pair<AK, int>, Aux> ax;

  void lens(const Pair& p) {
    ns++; ssum += p.s.size(); tsum += p.t.size();
    L& l = len[p.s.size()];
    double tl = p.t.size();
    if (l.k == 0) { l.k = 1; l.sw = p.w; l.m = tl; l.s = 0; }
    else {
      l.k++;
      double t = l.sw + p.w;
      l.s += l.sw * p.w * (tl - l.m) * (tl - l.m) / t;
      l.m += (tl - l.m) * p.w / t;
      l.sw = t;
    }
  }
  static double cdf(double m, double sd, double x) { return 0.5 * (1 + erf((x - m) / (sd * sqrt(2.0)))); }
  double slp(int sl, int tl) const {
    double m, sd;
    auto it = len.find(sl);
    if (it != len.end() && it->second.k >= 2) {
      const L& l = it->second;
      m = l.m; sd = sqrt(l.s * l.k / ((l.k - 1) * l.sw));
    } else {
      double d = ns ? tsum / ns - ssum / ns : 0;
      m = sl + d; sd = m * .25;
    }
    double p = cdf(m, sd, tl + .5) - cdf(m, sd, tl - .5);
    return p < 1e-7 ? 1e-7 : p;
  }

  void estep(size_t n, const Pair& p, bool forget) {
    int sl = p.s.size(), tl = p.t.size();
    for (int t : p.t) tseen.insert(t);
    if (!sl || !tl) return;
    if (!hmm()) {
      std::vector<std::vector<double>> e(tl + 1, std::vector<double>(sl + 1));
      for (int j = 1; j <= tl; ++j) {
        double sum = 0;
        for (int i = 0; i <= sl; ++i) {
          double u = uns(i ? p.s[i - 1] : 0, p.t[j - 1]);
          double d = u < 0 ? 0.1 : u;
          if (two()) { double a = unsA(AK(j, sl, tl), i); d *= a < 0 ? 0.1 : a; }
          if (d < 1e-6) d = 1e-6;
          e[j][i] = d; sum += d;
        }
        for (int i = 0; i <= sl; ++i) e[j][i] /= sum;
      }
      auto old = E.find(n);
      for (int j = 1; j <= tl; ++j) for (int i = 0; i <= sl; ++i) {
        double c = old == E.end() ? 0 : std::max(1e-6, p.w * old->second[j][i]);
        double w = std::max(1e-6, p.w * e[j][i]);
        Aux& a = lx[{i ? p.s[i - 1] : 0, p.t[j - 1]}];
        a.cur += c; a.nw += w;
        if (two()) { Aux& b = ax[{AK(j, sl, tl), i}]; b.cur += c; b.nw += w; }
      }
      if (!forget) E[n] = e;
      return;
    }
    int N = 2 * sl;
    auto W = [&](int i) { return i <= sl ? p.s[i - 1] : 0; };
    auto clampe = [](double x) { return std::min(-0.01, std::max(-9.0, x)); };
    std::vector<std::vector<double>> lp(N + 1, std::vector<double>(tl + 1)), A(lp), B(lp), ap(N + 1, std::vector<double>(N + 1));
    for (int i = 1; i <= N; ++i) for (int j = 1; j <= tl; ++j) lp[i][j] = log(pts(W(i), p.t[j - 1]));
    for (int q = 0; q <= N; ++q) for (int i = 1; i <= N; ++i) { double a = ah(q, sl, i); ap[q][i] = a > 0 ? log(a) : -99999; }
    for (int j = 1; j <= tl; ++j) for (int i = 1; i <= N; ++i) {
      if (j == 1) A[i][j] = ap[0][i] + lp[i][j];
      else for (int q = 1; q <= N; ++q) { double x = A[q][j - 1] + ap[q][i] + lp[i][j]; A[i][j] = q == 1 ? x : lsum(A[i][j], x); }
    }
    for (int j = tl; j >= 1; --j) for (int i = 1; i <= N; ++i) {
      if (j == tl) B[i][j] = 0;
      else for (int q = 1; q <= N; ++q) { double x = B[q][j + 1] + ap[i][q] + lp[q][j + 1]; B[i][j] = q == 1 ? x : lsum(B[i][j], x); }
    }
    std::vector<std::vector<double>> e(tl + 1, std::vector<double>(N + 1));
    for (int j = 1; j <= tl; ++j) {
      double sum = 0;
      for (int i = 1; i <= N; ++i) { double d = std::max(-99999.0, A[i][j] + B[i][j]); e[j][i] = d; sum = i == 1 ? d : lsum(sum, d); }
      for (int i = 1; i <= N; ++i) e[j][i] = clampe(e[j][i] - sum);
    }
    auto old = E.find(n);
    for (int j = 1; j <= tl; ++j) for (int i = 1; i <= N; ++i) {
      Aux& a = lx[{W(i), p.t[j - 1]}];
      if (old != E.end()) a.cur += p.w * exp(old->second[j][i]);
      a.nw += p.w * exp(e[j][i]);
    }
    // transitions
    int M = k == HMMP0 ? sl : N;
    std::map<std::tuple<int, int, int>, double> e2;
    for (int j = 1; j <= tl; ++j) {
      std::vector<std::pair<std::pair<int, int>, double>> v;
      double sum = 0; bool first = true;
      auto add = [&](double d) { sum = first ? d : lsum(sum, d); first = false; };
      for (int i = 1; i <= M; ++i) {
        if (j == 1) {
          int ii = i > sl ? sl + 1 : i;      // the empty-word parameters of the first position are tied
          double d = std::max(-99999.0, ap[0][ii] + lp[ii][1] + B[ii][1]);
          v.push_back({{0, i}, d}); add(d);
        } else for (int q = 1; q <= M; ++q) {
          if (!valid(q, sl, i)) { add(-99999); continue; }
          double d = std::max(-99999.0, A[q][j - 1] + ap[q][i] + lp[i][j] + B[i][j]);
          v.push_back({{q, i}, d}); add(d);
        }
      }
      for (auto& x : v) e2[std::make_tuple(j, x.first.second, x.first.first)] = clampe(x.second - sum);
    }
    auto old2 = E2.find(n);
    for (auto& x : e2) {
      Aux& a = ax[{AK(std::get<2>(x.first), sl, 0), std::get<1>(x.first)}];
      if (old2 != E2.end()) a.cur += p.w * exp(old2->second.at(x.first));
      a.nw += p.w * exp(x.second);
    }
    if (!forget) { E[n] = e; E2[n] = e2; }
  }
  void mstep(bool clear) {
    if (clear) { num.clear(); den.clear(); if (hmm()) { anum.clear(); aden.clear(); } else if (two()) { anum.clear(); aden.clear(); } }
    for (auto& x : lx) {
      double& n = num[x.first.first][x.first.second];
      double& d = den[x.first.first];
      double nn = n - x.second.cur + x.second.nw;
      d += nn - n; n = nn;
    }
    for (auto& x : ax) {
      double& n = anum[x.first.first][x.first.second];
      double& d = aden[x.first.first];
      double nn = n - x.second.cur + x.second.nw;
      d += nn - n; n = nn;
    }
    lx.clear(); ax.clear();
  }
  // only the expected values of the last `window` sentence pairs are kept
  size_t window = SIZE_MAX, ptr = 0;
  std::map<size_t, size_t> slot, where;
  void keep(size_t n) {
    if (window == SIZE_MAX || where.count(n)) return;
    size_t p = ptr;
    ptr = (ptr + 1) % window;
    if (slot.count(p)) { size_t o = slot[p]; where.erase(o); E.erase(o); E2.erase(o); }
    slot[p] = n; where[n] = p;
  }
  void train(const std::vector<Pair>& c, size_t a, size_t b, bool batch) {
    for (size_t n = a; n <= b; ++n) lens(c[n]);
    for (size_t n = a; n <= b; ++n) { if (!batch && !c[n].s.empty() && !c[n].t.empty()) keep(n); estep(n, c[n], batch); }
    mstep(batch);
  }
};

static std::vector<std::string> SW, TW;   // word strings, index 0 unused
static std::vector<std::string> strs(const VI& v, const std::vector<std::string>& w) { std::vector<std::string> r; for (int x : v) r.push_back(w[x]); return r; }

template <class M> struct Q;   // parameter access
template <class M> static double mpts(M& m, WordIndex s, WordIndex t) { return (double)m.pts(s, t); }
struct Acc {
  std::function<double(WordIndex, WordIndex)> pts;
  std::function<double(int, int, int, int)> a2;   // j slen tlen i
  std::function<double(int, int, int)> ah;        // prev slen i
  std::function<double(int, int)> sl;
};
template <class M> Acc acc1(M& m) {
  Acc a;
  a.pts = [&m](WordIndex s, WordIndex t) { return (double)m.pts(s, t); };
  a.sl = [&m](int s, int t) { return (double)m.sentLenLgProb(s, t); };
  return a;
}
template <class M> Acc acc2(M& m) { Acc a = acc1(m); a.a2 = [&m](int j, int s, int t, int i) { return (double)m.aProb(j, s, t, i); }; return a; }
template <class M> Acc acch(M& m) { Acc a = acc1(m); a.ah = [&m](int p, int s, int i) { return (double)m.aProb(p, s, i); }; return a; }

struct Mod { Kind k; Base* b; Acc a; ~Mod() { delete b; } };
static void make(Kind k, Mod& m) {
  m.k = k;
  switch (k) {
    case IBM1: { auto* x = new IncrIbm1AligModel; m.b = x; m.a = acc1(*x); break; }
    case SIBM1: { auto* x = new SmoothedIncrIbm1AligModel; m.b = x; m.a = acc1(*x); break; }
    case IBM2: { auto* x = new IncrIbm2AligModel; m.b = x; m.a = acc2(*x); break; }
    case SIBM2: { auto* x = new SmoothedIncrIbm2AligModel; m.b = x; m.a = acc2(*x); break; }
    case HMM: { auto* x = new IncrHmmAligModel; m.b = x; m.a = acch(*x); break; }
    case HMMP0: { auto* x = new IncrHmmP0AligModel; m.b = x; m.a = acch(*x); break; }
  }
}
static IncrIbm1AligModel* ibm1(Mod& m) { return dynamic_cast<IncrIbm1AligModel*>(m.b); }

static void addall(Mod& m, const std::vector<Pair>& c, size_t a, size_t b) {
  for (size_t n = a; n <= b; ++n) {
    std::pair<unsigned, unsigned> r;
    m.b->addSentPair(strs(c[n].s, SW), strs(c[n].t, TW), (Count)(float)c[n].w, r);
  }
}
static WordIndex sidx(Mod& m, int w) { return w == 0 ? NULL_WORD : m.b->stringToSrcWordIndex(SW[w]); }
static WordIndex tidx(Mod& m, int w) { return m.b->stringToTrgWordIndex(TW[w]); }

static bool ceq(double a, double b, double rel = 3e-3, double ab = 1e-6) { return close_enough(a, b, rel, ab); }

static void same(Ctx& c, const char* what, Mod& x, Mod& y, const std::vector<Pair>& corpus, double rel = 1e-5) {
  if (x.b->getTrgVocabSize() != y.b->getTrgVocabSize() || x.b->getSrcVocabSize() != y.b->getSrcVocabSize())
    c.fail(std::string(what) + ":vocab", "%s: vocabulary sizes differ (%zu %zu / %zu %zu)", what, x.b->getSrcVocabSize(), x.b->getTrgVocabSize(), y.b->getSrcVocabSize(), y.b->getTrgVocabSize());
  for (int s = 0; s < (int)SW.size(); ++s) for (int t = 1; t < (int)TW.size(); ++t) {
    double p = x.a.pts(sidx(x, s), tidx(x, t)), q = y.a.pts(sidx(y, s), tidx(y, t));
    if (!ceq(p, q, rel, 1e-7)) c.fail(std::string(what) + ":pts", "%s %s: p(%d|%d)=%.9g and %.9g", what, NAME[x.k], t, s, p, q);
    c.count("parameters_compared");
  }
  for (auto& p : corpus) {
    int sl = p.s.size(), tl = p.t.size();
    if (!sl || !tl) continue;
    double u = x.a.sl(sl, tl), v = y.a.sl(sl, tl);
    if (!ceq(u, v, 3e-3, 1e-3)) c.fail(std::string(what) + ":slen", "%s: sentence length log-probability of %d/%d: %.9g and %.9g", what, sl, tl, u, v);
    if (x.a.a2) for (int j = 1; j <= tl; ++j) for (int i = 0; i <= sl; ++i) {
      double u = x.a.a2(j, sl, tl, i), v = y.a.a2(j, sl, tl, i);
      if (!ceq(u, v, rel, 1e-7)) c.fail(std::string(what) + ":align", "%s: a(%d|%d,%d,%d)=%.9g and %.9g", what, i, j, sl, tl, u, v);
    }
    if (x.a.ah) for (int q = 0; q <= 2 * sl; ++q) for (int i = 1; i <= 2 * sl; ++i) {
      double u = x.a.ah(q, sl, i), v = y.a.ah(q, sl, i);
      if (!ceq(u, v, rel, 1e-7)) c.fail(std::string(what) + ":align", "%s: a(%d|%d,%d)=%.9g and %.9g", what, i, q, sl, u, v);
    }
  }
}

static VI rsent(Ctx& c, int nv, int mx, bool unk) {
  VI v;
  int n = c.rng.range(1, mx);
  for (int i = 0; i < n; ++i) v.push_back(unk && c.rng.chance(.1) ? nv + 1 : c.rng.range(1, nv));
  return v;
}

static void scoring(Ctx& c, Mod& m, const VI& s, const VI& t) {
  Kind k = m.k;
  int sl = s.size(), tl = t.size();
  std::vector<WordIndex> sv, tv;
  for (int w : s) sv.push_back(sidx(m, w));
  for (int w : t) tv.push_back(tidx(m, w));
  double slp = m.a.sl(sl, tl);
  double got = (double)m.b->calcLgProb(sv, tv);
  WordAligMatrix wm;
  double best = (double)m.b->obtainBestAlignment(sv, tv, wm);
  std::vector<PositionIndex> al;
  if (wm.get_I() != (unsigned)sl || wm.get_J() != (unsigned)tl) c.fail("align:size", "%s: alignment matrix %ux%u for a %d/%d pair", NAME[k], wm.get_I(), wm.get_J(), sl, tl);
  if (!wm.getAligVec(al)) c.fail("align:form", "%s: best alignment links a target word to several source words", NAME[k]);
  if ((int)al.size() != tl) c.fail("align:form", "%s: alignment vector of %zu for %d target words", NAME[k], al.size(), tl);
  auto P = [&](int i, int j) { return m.a.pts(i == 0 ? NULL_WORD : sv[i - 1], tv[j - 1]); };
  double tot = 0, mx = 0, ofal = 0;
  const double F = exp(-99999);   // 0
  (void)F;
  if (k == IBM1 || k == SIBM1 || k == IBM2 || k == SIBM2) {
    double aibm1 = -tl * log(sl + 1.0);
    bool two = k == IBM2 || k == SIBM2;
    for (int j = 1; j <= tl; ++j) {
      double su = 0, be = 0, of = 0;
      for (int i = 0; i <= sl; ++i) {
        double x = P(i, j) * (two ? m.a.a2(j, sl, tl, i) : 1);
        su += x; be = std::max(be, x);
        if ((int)al[j - 1] == i) of = x;
      }
      tot += log(su); mx += log(be); ofal += log(of);
    }
    if (!two) { tot += aibm1; mx += aibm1; ofal += aibm1; }
    tot += slp; mx += slp;  ofal += slp;
    if (!std::isfinite(tot) || !std::isfinite(mx)) { c.count("impossible_pairs"); return; }
    double ca = (double)m.b->calcLgProbForAlig(sv, tv, wm) ;
    // the score of a given alignment has no sentence length term in some models: compare modulo that
    if (!ceq(ca, ofal, 1e-4, 1e-3) && !ceq(ca + slp, ofal, 1e-4, 1e-3))
      c.fail("score:alig", "%s: the best alignment scores %.9g; by definition %.9g (sentence length %.9g)", NAME[k], ca, ofal, slp);
    {   // the score accumulated a few source words at a time
      std::vector<Prob> pp;
      m.b->initPpInfo(sl, tv, pp);
      for (int a = 0; a < sl;) {
        int n = c.rng.range(1, sl - a);
        m.b->partialProbWithoutLen(a, sl, std::vector<WordIndex>(sv.begin() + a, sv.begin() + a + n), tv, pp);
        a += n;
      }
      double pl = (double)m.b->lpFromPpInfo(pp) + slp;
      if (!ceq(pl, tot, 1e-4, 1e-3)) c.fail("score:partial", "%s: accumulated score %.9g, by definition %.9g", NAME[k], pl, tot);
    }
    if (!ceq(got, tot, 1e-4, 1e-3)) c.fail("score:sum", "%s: calcLgProb %.9g, by definition %.9g (sl %d tl %d)", NAME[k], got, tot, sl, tl);
  } else {
    int N = 2 * sl;
    std::vector<std::vector<double>> A(N + 1, std::vector<double>(tl + 1, 0)), D(A), C(A);
    for (int j = 1; j <= tl; ++j) for (int i = 1; i <= N; ++i) {
      double p = P(i > sl ? 0 : i, j);
      bool on = (int)al[j - 1] == (i > sl ? 0 : i);
      if (j == 1) { A[i][j] = m.a.ah(0, sl, i) * p; D[i][j] = A[i][j]; C[i][j] = on ? A[i][j] : 0; }
      else for (int q = 1; q <= N; ++q) {
        double a = m.a.ah(q, sl, i) * p;
        A[i][j] += A[q][j - 1] * a; D[i][j] = std::max(D[i][j], D[q][j - 1] * a);
        if (on) C[i][j] = std::max(C[i][j], C[q][j - 1] * a);
      }
    }
    double su = 0, be = 0, of = 0;
    for (int i = 1; i <= N; ++i) { su += A[i][tl]; be = std::max(be, D[i][tl]); of = std::max(of, C[i][tl]); }
    tot = slp + log(su); mx = slp + log(be); ofal = slp + log(of);
    if (!ceq(got, tot, 1e-4, 1e-3)) c.fail("score:forward", "%s: calcLgProb %.9g, forward sum %.9g (sl %d tl %d)", NAME[k], got, tot, sl, tl);
  }
  if (!ceq(best, mx, 1e-4, 1e-3)) c.fail("align:best-score", "%s: best alignment score %.9g, maximum is %.9g (sum %.9g)", NAME[k], best, mx, tot);
  if (!ceq(ofal, mx, 1e-4, 1e-3)) c.fail("align:best", "%s: the returned alignment has score %.9g, the maximum is %.9g", NAME[k], ofal, mx);
  if (best > got + 1e-3) c.fail("align:over", "%s: one alignment (%.9g) is more likely than all together (%.9g)", NAME[k], best, got);
  c.count("alignments_checked");
}

static void one(Ctx& c) {
  Kind k = (Kind)c.rng.below(6);
  bool hmm = k == HMM || k == HMMP0, two = k == IBM2 || k == SIBM2;
  int ns = c.rng.range(1, 7), nt = c.rng.range(1, 7);
  bool big = c.rng.chance(.02), many = c.rng.chance(.02);
  if (big) { ns = c.rng.range(8, 40); nt = c.rng.range(8, 40); c.count("large_corpora"); }
  SW.assign(1, ""); TW.assign(1, "");
  const char* odd[] = {"1", "0", "\xc3\xb1", ",", "<x>", "-1", "a_b", "%"};
  for (int i = 1; i <= ns + 2; ++i) SW.push_back(c.rng.chance(.2) ? odd[i % 8] + std::to_string(i) : "s" + std::to_string(i));
  for (int i = 1; i <= nt + 2; ++i) TW.push_back(c.rng.chance(.2) ? odd[i % 8] + std::to_string(i) : "t" + std::to_string(i));
  int np = c.rng.range(1, 7), mx = c.rng.range(1, hmm ? 5 : 7);
  if (big) mx = hmm ? 14 : 40;
  if (many) { np = c.rng.range(8, hmm ? 30 : 60); c.count("long_corpora"); }
  std::vector<Pair> corpus;
  bool wt = c.rng.chance(.4), empties = c.rng.chance(.15), corr = c.rng.chance(.5);
  for (int i = 0; i < np; ++i) {
    Pair p{rsent(c, ns, mx, false), rsent(c, nt, mx, false), 1};
    if (corr) { p.t.clear(); for (int w : p.s) p.t.push_back(1 + (w * 3) % nt); }
    if (wt) { double ws[] = {0.25, 0.5, 1, 2, 3.5, 10, 100}; p.w = ws[c.rng.below(7)]; }
    if (empties && c.rng.chance(.3)) (c.rng.chance(.5) ? p.s : p.t).clear();
    corpus.push_back(p);
    std::string l;
    for (int w : p.s) l += SW[w] + " ";
    l += "|||";
    for (int w : p.t) l += " " + TW[w];
    c.note("pair %s  x%g", l.c_str(), p.w);
  }
  Mod m; make(k, m);
  Ref r; r.k = k;
  r.V0 = m.b->getTrgVocabSize();
  if (hmm && c.rng.chance(.5)) {
    auto* h = dynamic_cast<_incrHmmAligModel*>(m.b);
    double f[] = {0.01, 0.1, 0.5, 0.9};
    r.lexf = f[c.rng.below(4)]; r.alf = f[c.rng.below(4)];
    h->setLexSmIntFactor(r.lexf); h->setAlSmIntFactor(r.alf);
    if (k == HMMP0) { r.p0 = f[c.rng.below(4)]; dynamic_cast<_incrHmmP0AligModel*>(m.b)->set_hmm_p0(r.p0); }
  }
  int sched = c.rng.below(3);   // 0 batch, 1 all, 2 incremental
  c.note("%s schedule %d lexf %g alf %g p0 %g", NAME[k], sched, r.lexf, r.alf, r.p0);
  int iters = c.rng.range(1, 4);
  if (sched && c.rng.chance(.25)) { r.window = c.rng.range(1, 4); m.b->set_expval_maxnsize(r.window); c.note("window %zu", r.window); }
  double prevLL = -INFINITY;
  // log-likelihood by definition, without the sentence length term
  auto LL = [&]() {
    double ll = 0;
    for (auto& p : corpus) {
      int sl = p.s.size(), tl = p.t.size();
      if (!sl || !tl) continue;
      for (int j = 1; j <= tl; ++j) {
        double su = 0;
        for (int i = 0; i <= sl; ++i) su += m.a.pts(i ? sidx(m, p.s[i - 1]) : NULL_WORD, tidx(m, p.t[j - 1])) * (two ? m.a.a2(j, sl, tl, i) : 1);
        ll += p.w * log(su);
      }
    }
    return ll;
  };
  auto mono = [&](int it) {
    if (hmm) return;
    double ll = LL();
    if (it > 0 && r.window >= corpus.size() && ll < prevLL - 2e-3 * (1 + fabs(prevLL))) c.fail("em:likelihood", "%s: training lowers the log-likelihood from %.9g to %.9g", NAME[k], prevLL, ll);
    prevLL = ll;
    c.count("em_iterations");
  };
  auto cmp = [&](const char* when) {
    for (int s = 0; s <= ns; ++s) for (int t = 1; t <= nt; ++t) {
      bool ks = s == 0 || m.b->existSrcSymbol(SW[s]), kt = m.b->existTrgSymbol(TW[t]);
      if (!ks || !kt) continue;
      double p = m.a.pts(sidx(m, s), tidx(m, t)), q = r.pts(s, t);
      if (!ceq(p, q, 5e-3, 3e-6)) c.fail("em:pts", "%s %s: p(%s|%s)=%.9g, reference %.9g", NAME[k], when, TW[t].c_str(), s ? SW[s].c_str() : "NULL", p, q);
      c.count("parameters_compared");
    }
    std::set<std::pair<int, int>> done;
    for (auto& p : corpus) {
      int sl = p.s.size(), tl = p.t.size();
      if (!sl || !tl || !done.insert({sl, tl}).second) continue;
      double u = m.a.sl(sl, tl), v = log(r.slp(sl, tl));
      if (!std::isnan(v) && !ceq(u, v, 1e-2, 2e-2) && v > -12) c.fail("slen", "%s %s: sentence length log-probability %d->%d is %.9g, reference %.9g", NAME[k], when, sl, tl, u, v);
      if (two) for (int j = 1; j <= tl; ++j) for (int i = 0; i <= sl; ++i) {
        double u = m.a.a2(j, sl, tl, i), v = r.a2(j, sl, tl, i);
        if (!ceq(u, v, 5e-3, 3e-6)) c.fail("em:align", "%s %s: a(%d|%d,%d,%d)=%.9g, reference %.9g", NAME[k], when, i, j, sl, tl, u, v);
      }
      if (hmm) for (int q = 0; q <= 2 * sl; ++q) for (int i = 1; i <= 2 * sl; ++i) {
        double u = m.a.ah(q, sl, i), v = r.ah(q, sl, i);
        if (!ceq(u, v, 5e-3, 3e-6)) c.fail("em:align", "%s %s: a(%d|%d,%d)=%.9g, reference %.9g", NAME[k], when, i, q, sl, u, v);
      }
    }
  };
  if (sched == 0) {
    addall(m, corpus, 0, np - 1);
    for (int it = 0; it < iters; ++it) { m.b->efficientBatchTrainingForAllSents(); r.train(corpus, 0, np - 1, true); mono(it); }
  } else if (sched == 1) {
    addall(m, corpus, 0, np - 1);
    for (int it = 0; it < iters; ++it) { m.b->trainAllSents(); r.train(corpus, 0, np - 1, false); mono(it); }
  } else {
    int at = 0;
    while (at < np) {
      int n = c.rng.range(1, np - at);
      addall(m, corpus, at, at + n - 1);
      int reps = c.rng.range(1, 2);
      for (int q = 0; q < reps; ++q) { m.b->trainSentPairRange(std::make_pair(at, at + n - 1)); r.train(corpus, at, at + n - 1, false); c.count("incremental_steps"); }
      c.note("train %d..%d x%d", at, at + n - 1, reps);
      at += n;
    }
    int more = c.rng.range(0, 3);
    for (int q = 0; q < more; ++q) {
      int a = c.rng.below(np), b = c.rng.range(a, np - 1);
      c.note("retrain %d..%d", a, b);
      m.b->trainSentPairRange(std::make_pair(a, b)); r.train(corpus, a, b, false);
    }
  }
  // parameters are finite distributions
  auto dist = [&](Mod& m, const char* when) {
    std::vector<WordIndex> srcs(1, NULL_WORD);
    for (int s = 1; s <= ns; ++s) if (m.b->existSrcSymbol(SW[s])) srcs.push_back(sidx(m, s));
    if (hmm) srcs.push_back(UNK_WORD);
    for (WordIndex s : srcs) {
      double su = 0;
      size_t V = m.b->getTrgVocabSize();
      std::set<WordIndex> ts;
      for (int t = 1; t <= nt; ++t) if (m.b->existTrgSymbol(TW[t])) ts.insert(tidx(m, t));
      for (WordIndex t = 0; t < (hmm ? 3 : 0); ++t) ts.insert(t);
      bool any = false;
      for (WordIndex t : ts) {
        double p = m.a.pts(s, t);
        if (!(p >= 0 && p <= 1 + 1e-4)) c.fail("dist:range", "%s %s: p(%u|%u)=%g", NAME[k], when, t, s, p);
        su += p; if (p > 2e-8) any = true;
      }
      if (hmm && ts.size() != V) c.fail("vocab:size", "%s: vocabulary size %zu, %zu words known", NAME[k], V, ts.size());
      bool seen = s == NULL_WORD || s >= 3;
      bool trained = false;
      for (auto& p : corpus) if (p.s.size() && p.t.size()) { if (s == NULL_WORD) trained = true; else for (int w : p.s) if (sidx(m, w) == s) trained = true; }
      if (hmm) {
        double want = trained && seen ? 1 : r.lexf;
        if (!ceq(su, want, 3e-3)) c.fail("dist:pts", "%s %s: the translations of source word %u add up to %.9g instead of %.9g", NAME[k], when, s, su, want);
      } else if (trained && any && !ceq(su, 1, 3e-3)) c.fail("dist:pts", "%s %s: the translations of source word %u add up to %.9g", NAME[k], when, s, su);
      else if (trained && !any) c.fail("dist:none", "%s %s: trained source word %u has no translations", NAME[k], when, s);
      c.count("distributions");
    }
    for (auto& p : corpus) {
      int sl = p.s.size(), tl = p.t.size();
      if (!sl || !tl) continue;
      if (two) for (int j = 1; j <= tl; ++j) {
        double su = 0;
        for (int i = 0; i <= sl; ++i) su += m.a.a2(j, sl, tl, i);
        if (!ceq(su, 1, 3e-3)) c.fail("dist:align", "%s %s: alignment probabilities of position %d (%d/%d) add up to %.9g", NAME[k], when, j, sl, tl, su);
      }
      if (hmm) for (int q = 0; q <= 2 * sl; ++q) {
        double su = 0;
        for (int i = 1; i <= 2 * sl; ++i) su += Ref::valid(q, sl, i) ? m.a.ah(q, sl, i) : 0;
        bool reached = q == 0;
        (void)reached;
        if (su > 1 + 3e-3 || !(su >= 0)) c.fail("dist:align", "%s %s: transitions from %d (slen %d) add up to %.9g", NAME[k], when, q, sl, su);
        bool tr = q == 0 || tl > 1;
        if (tr && !ceq(su, 1, 3e-3)) c.fail("dist:align", "%s %s: transitions from %d (slen %d) add up to %.9g", NAME[k], when, q, sl, su);
      }
      c.count("distributions");
    }
  };
  dist(m, "trained");
  cmp("trained");
  {
    std::string b;
    for (auto& p : corpus) { for (int w : p.s) b += std::to_string(w) + " "; b += "|"; for (int w : p.t) b += std::to_string(w) + " "; b += "/"; }
    c.distinct(NAME[k] + b + std::to_string(sched));
  }
  // scoring of training and other pairs
  for (int q = 0; q < 4; ++q) {
    VI s = rsent(c, ns, hmm ? 4 : 5, hmm || k == SIBM1 || k == SIBM2), t = rsent(c, nt, hmm ? 4 : 5, hmm);
    if (q == 0) { s = corpus[0].s; t = corpus[0].t; }
    if (s.empty() || t.empty()) continue;
    scoring(c, m, s, t);
  }
  if (auto* i1 = ibm1(m)) {     // inverse entries
    for (int t = 1; t <= nt; ++t) {
      if (!m.b->existTrgSymbol(TW[t])) continue;
      IncrIbm1AligModel::SrcTableNode n;
      bool f = i1->getEntriesForTarget(tidx(m, t), n);
      for (int s = 0; s <= ns; ++s) {
        if (s && !m.b->existSrcSymbol(SW[s])) continue;
        double u = r.uns(s, t);
        bool in = f && n.count(sidx(m, s));
        if ((u >= 0) != in) c.fail("inverse", "%s: source word %d %s among the entries of target word %d", NAME[k], s, in ? "is" : "is not", t);
        if (in && !ceq((double)n[sidx(m, s)], m.a.pts(sidx(m, s), tidx(m, t)), 1e-6)) c.fail("inverse:prob", "%s: entry probability %g instead of %g", NAME[k], (double)n[sidx(m, s)], m.a.pts(sidx(m, s), tidx(m, t)));
      }
    }
  }
  // save and reload
  std::string pre = c.scratch + "/m";
  if (m.b->print(pre.c_str()) != THOT_OK) c.fail("print", "%s: saving fails", NAME[k]);
  {
    Mod y; make(k, y);
    if (c.rng.chance(.3)) { addall(y, corpus, 0, 0); y.b->trainAllSents(); }   // loading replaces what was there
    if (y.b->load(pre.c_str()) != THOT_OK) c.fail("load", "%s: loading fails", NAME[k]);
    same(c, "reload", m, y, corpus);
    c.count("reloads");
    if (y.b->numSentPairs() != m.b->numSentPairs()) c.fail("reload:pairs", "%s: %u pairs before, %u after reloading", NAME[k], m.b->numSentPairs(), y.b->numSentPairs());
    // training goes on the same way
    if (sched != 0 && c.rng.chance(.7)) {
      Pair p{rsent(c, ns + 1, mx, false), rsent(c, nt + 1, mx, false), wt ? 2.5 : 1};
      corpus.push_back(p);
      addall(m, corpus, np, np); addall(y, corpus, np, np);
      unsigned a = c.rng.chance(.5) ? np : 0;
      m.b->trainSentPairRange(std::make_pair(a, (unsigned)np)); y.b->trainSentPairRange(std::make_pair(a, (unsigned)np));
      r.train(corpus, a, np, false);
      ns++; nt++;
      same(c, "retrain-reloaded", m, y, corpus, 3e-3);
      dist(y, "retrained");
      cmp("retrained");
      c.count("retrained_reloads");
    }
  }
  if (k == HMMP0 && c.mode != "noldb") {
    if (m.b->print(pre.c_str()) != THOT_OK) c.fail("print", "saving fails");
    std::string dbp = pre + "_ldb_hmm_lexnd";
    wipe(dbp);
    Mod y; y.k = k;
    auto* l = new IncrLevelDbHmmP0AligModel; y.b = l; y.a = acch(*l);
    if (y.b->load(pre.c_str()) != THOT_OK) c.fail("ldb:load", "the LevelDB model does not load");
    same(c, "ldb", m, y, corpus);
    for (int q = 0; q < 2; ++q) scoring(c, y, rsent(c, ns, 4, true), rsent(c, nt, 4, true));
    // further training in both
    if (sched != 0) {
      unsigned n = corpus.size();
      m.b->trainSentPairRange(std::make_pair(0u, n - 1)); y.b->trainSentPairRange(std::make_pair(0u, n - 1));
      same(c, "ldb-retrained", m, y, corpus, 3e-3);
    }
    std::string p2 = c.scratch + "/l";
    wipe(p2 + "_ldb_hmm_lexnd");
    if (y.b->print(p2.c_str()) != THOT_OK) c.fail("ldb:print", "the LevelDB model does not save");
    c.count("leveldb_models");
    delete y.b; y.b = new IncrLevelDbHmmP0AligModel;
    auto* l2 = (IncrLevelDbHmmP0AligModel*)y.b; y.a = acch(*l2);
    if (y.b->load(p2.c_str()) != THOT_OK) c.fail("ldb:reload", "the saved LevelDB model does not load");
    same(c, "ldb-reload", m, y, corpus, sched ? 3e-3 : 1e-5);
    delete y.b; y.b = nullptr;
    wipe(dbp); wipe(p2 + "_ldb_hmm_lexnd");
  }
  if (c.rng.chance(.3)) {
    m.b->clear();
    Mod f; make(k, f);
    if (hmm) for (Mod* x : {&m, &f}) {
      auto* h = dynamic_cast<_incrHmmAligModel*>(x->b);
      h->setLexSmIntFactor(r.lexf); h->setAlSmIntFactor(r.alf);
      if (k == HMMP0) dynamic_cast<_incrHmmP0AligModel*>(x->b)->set_hmm_p0(r.p0);
    }
    if (m.b->numSentPairs() != 0) c.fail("clear:pairs", "pairs left after clear");
    addall(m, corpus, 0, 0); addall(f, corpus, 0, 0);
    m.b->trainAllSents(); f.b->trainAllSents();
    std::vector<Pair> one(corpus.begin(), corpus.begin() + 1);
    same(c, "clear", m, f, one);
  }
  c.eval();
}

int main(int argc, char** argv) {

  return run(argc, argv, one);
}
