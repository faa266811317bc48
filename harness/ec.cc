// MODULES: ec nlp
// edit distances and error-correction models against reference dynamic programming
#include "vh.h"
#include "EditDistForStr.h"
#include "EditDistForVec.h"
#include "EditDistForVecString.h"
#include "PfsmEcm.h"
#include "PfsmEcmForWg.h"
#include "NonPbEcModelForNbUcat.h"
#include <iostream>
using namespace vh;
typedef std::vector<std::string> VS;
typedef std::vector<std::vector<double>> Mat;

struct Cost { double h = 0, i = 1, s = 1, d = 1; };

// ---- reference: minimum cost over all edit scripts
static Mat cmat(const std::string& x, const std::string& y, const Cost& c) {
  Mat m(x.size() + 1, std::vector<double>(y.size() + 1, 0));
  for (size_t a = 0; a <= x.size(); ++a)
    for (size_t b = 0; b <= y.size(); ++b) {
      if (!a && !b) continue;
      double best = INFINITY;
      if (a) best = std::min(best, m[a - 1][b] + c.d);
      if (b) best = std::min(best, m[a][b - 1] + c.i);
      if (a && b) best = std::min(best, m[a - 1][b - 1] + (x[a - 1] == y[b - 1] ? c.h : c.s));
      m[a][b] = best;
    }
  return m;
}
static double ced(const std::string& x, const std::string& y, const Cost& c) { return cmat(x, y, c)[x.size()][y.size()]; }
static double cedp(const std::string& x, const std::string& y, const Cost& c) {
  Mat m = cmat(x, y, c);
  double best = INFINITY;
  for (auto& r : m) best = std::min(best, r[y.size()]);
  return best;
}
static std::string strip(const std::string& s) { return !s.empty() && s.back() == ' ' ? s.substr(0, s.size() - 1) : s; }
static double wsub(const std::string& a, const std::string& b, bool pref, const Cost& c) { return pref ? cedp(a, b, c) : ced(a, b, c); }
// inc: the last word of y may be incomplete
static Mat vmat(const VS& x, const VS& y, bool inc, const Cost& c) {
  Mat m(x.size() + 1, std::vector<double>(y.size() + 1, 0));
  for (size_t a = 0; a <= x.size(); ++a)
    for (size_t b = 0; b <= y.size(); ++b) {
      if (!a && !b) continue;
      double best = INFINITY;
      if (a) best = std::min(best, m[a - 1][b] + c.d * x[a - 1].size());
      if (b) best = std::min(best, m[a][b - 1] + c.i * y[b - 1].size());
      if (a && b) best = std::min(best, m[a - 1][b - 1] + wsub(x[a - 1], y[b - 1], inc && b == y.size(), c));
      m[a][b] = best;
    }
  return m;
}
static double ved(const VS& x, const VS& y, bool inc, const Cost& c) { return vmat(x, y, inc, c)[x.size()][y.size()]; }
static double vedp(const VS& x, const VS& y, bool inc, const Cost& c) {
  Mat m = vmat(x, y, inc, c);
  double best = INFINITY;
  for (auto& r : m) best = std::min(best, r[y.size()]);
  return best;
}

static std::string word(Ctx& c, int maxl) {
  static const char* const odd[] = {"\xc3\xa9", "\xe4\xbd\xa0", "-", ".", "\xff"};
  std::string w;
  int n = c.rng.range(1, maxl);
  int sz = c.rng.range(1, 4);
  for (int i = 0; i < n; ++i)
    if (c.rng.chance(0.04)) w += odd[c.rng.below(5)];
    else w += (char)('a' + c.rng.below(sz));
  return w;
}
static std::string join(const VS& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool eq(double a, double b) { return close_enough(a, b, 1e-5, 1e-5); }

// a prefix typed by a user: related or unrelated to x
static VS prefix(Ctx& c, const VS& x, int maxw) {
  VS y;
  if (c.rng.chance(0.5) && !x.empty()) {
    size_t k = c.rng.range(1, (int)x.size());
    y.assign(x.begin(), x.begin() + k);
    if (c.rng.chance(0.6)) { size_t l = y.back().size(); y.back() = y.back().substr(0, c.rng.range(1, (int)l)); }
    int e = c.rng.range(0, 3);
    for (int q = 0; q < e && !y.empty(); ++q) {
      size_t p = c.rng.below(y.size());
      switch (c.rng.below(4)) {
        case 0: y[p] = word(c, 5); break;
        case 1: y.insert(y.begin() + p, word(c, 4)); break;
        case 2: if (y.size() > 1) y.erase(y.begin() + p); break;
        default: y[p][c.rng.below(y[p].size())] = 'b';
      }
    }
  } else {
    int n = c.rng.range(1, maxw);
    for (int i = 0; i < n; ++i) y.push_back(word(c, 5));
  }
  return y;
}

static void chars(Ctx& c) {
  Cost k;
  if (c.rng.chance(0.7)) { k.h = c.rng.chance(0.5) ? 0 : c.rng.unit(); k.i = 0.1 + 5 * c.rng.unit(); k.s = 0.1 + 5 * c.rng.unit(); k.d = 0.1 + 5 * c.rng.unit(); }
  std::string x = c.rng.chance(0.05) ? "" : word(c, 12), y = c.rng.chance(0.05) ? "" : word(c, 9);
  if (c.rng.chance(0.01)) { x = word(c, 400); y = word(c, 400); c.count("long_strings"); }
  if (c.rng.chance(0.3)) y = x.substr(0, c.rng.below(x.size() + 1));
  c.note("chars x=[%s] y=[%s] h=%g i=%g s=%g d=%g", x.c_str(), y.c_str(), k.h, k.i, k.s, k.d);
  EditDistForStr e;
  e.setErrorModel(k.h, k.i, k.s, k.d);
  double r = ced(x, y, k);
  double g = e.calculateEditDist(x, y);
  if (!eq(r, g)) c.fail("char:dist", "edit distance %.9g, minimum is %.9g", g, r);
  unsigned H, I, S, D;
  g = e.calculateEditDistOps(x, y, H, I, S, D);
  if (!eq(r, g)) c.fail("char:distops", "edit distance %.9g, minimum is %.9g", g, r);
  if (H + S + D != x.size() || H + S + I != y.size()) c.fail("char:counts", "operation counts h%u i%u s%u d%u do not turn |x|=%zu into |y|=%zu", H, I, S, D, x.size(), y.size());
  if (!eq(r, H * k.h + I * k.i + S * k.s + D * k.d)) c.fail("char:opcost", "operations h%u i%u s%u d%u do not cost %.9g", H, I, S, D, r);
  for (int pd = 0; pd < 2; ++pd) {
    std::vector<unsigned> ops;
    double want = pd ? cedp(x, y, k) : r;
    g = pd ? e.calculateEditDistPrefixOps(x, y, ops) : e.calculateEditDistPrefixOpsNoPrefDel(x, y, ops);
    if (!eq(want, g)) c.fail(pd ? "char:pref" : "char:nopref", "distance %.9g, minimum is %.9g", g, want);
    size_t a = 0, b = 0; double t = 0;
    for (unsigned o : ops) {
      if (o == HIT_OP) { if (a >= x.size() || b >= y.size() || x[a] != y[b]) c.fail("char:ops", "hit where the characters differ"); ++a; ++b; t += k.h; }
      else if (o == SUBST_OP) { ++a; ++b; t += k.s; }
      else if (o == INS_OP) { ++b; t += k.i; }
      else if (o == DEL_OP) { ++a; t += k.d; }
      else c.fail("char:ops", "unexpected operation %u", o);
    }
    if (b != y.size() || a > x.size() || (!pd && a != x.size())) c.fail("char:ops", "operations consume %zu of x and %zu of y", a, b);
    if (!eq(t, want)) c.fail("char:opscost", "operations cost %.9g, the distance is %.9g", t, want);
  }
  c.count("char_pairs");
  c.eval();
}

// the operations applied as they are defined; returns the corrected words and the cost
struct App { VS out; double cost = 0; size_t used = 0; bool ok = true; };
static App apply(Ctx& c, const VS& x, const VS& y, bool inc, const std::vector<unsigned>& ops, const Cost& k) {
  App r;
  size_t a = 0, b = 0;
  for (unsigned o : ops) {
    if ((o == HIT_OP || o == SUBST_OP || o == DEL_OP) && a >= x.size()) { r.ok = false; return r; }
    if ((o == HIT_OP || o == SUBST_OP || o == INS_OP) && b >= y.size()) { r.ok = false; return r; }
    bool last = b + 1 == y.size();
    switch (o) {
      case HIT_OP:
        if (!(x[a] == y[b] || (inc && starts(x[a], y[b])))) { r.ok = false; return r; }
        // fallthrough
      case SUBST_OP: r.cost += wsub(x[a], y[b], inc && last, k); r.out.push_back(y[b]); ++a; ++b; break;
      case INS_OP: r.cost += k.i * y[b].size(); r.out.push_back(y[b]); ++b; break;
      case DEL_OP: r.cost += k.d * x[a].size(); ++a; break;
      default: r.ok = false; return r;
    }
  }
  if (b != y.size()) r.ok = false;
  r.used = a;
  return r;
}

// shares the model's own distance object, so that ties fall the same way
struct EcmX : PfsmEcm { EditDistForVecString& d() { return editDistForVecStr; } };

static void words(Ctx& c) {
  Cost k;
  EcmX ecm;
  PfsmEcmForWg wg;
  // ---- error model weights
  auto model = [&](double V, double hp, double fi, double fs, double fd) {
    double e = (1 - hp) / (fi * V + fs * (V - 1) + fd);
    k.h = -log(hp); k.i = -log(e * fi); k.s = -log(e * fs); k.d = -log(e * fd);
  };
  model(DEFAULT_VOC_SIZE, DEFAULT_HIT_PROB, DEFAULT_INS_FACTOR, DEFAULT_SUBST_FACTOR, DEFAULT_DEL_FACTOR);
  if (c.rng.chance(0.7)) {
    float V = c.rng.range(2, 300), hp = c.rng.chance(0.15) ? 0.02 : 0.3 + 0.69 * c.rng.unit(), fi = 0.05 + 3 * c.rng.unit(), fs = 0.05 + 3 * c.rng.unit(), fd = 0.05 + 3 * c.rng.unit();
    ecm.setWeights({V, hp, fi, fs, fd});
    wg.setWeights({V, hp, fi, fs, fd});
    model(V, hp, fi, fs, fd);
    c.note("weights %g %g %g %g %g", V, hp, fi, fs, fd);
    c.count("weight_sets");
  }
  if (c.rng.chance(0.3)) {   // rejected weights change nothing
    std::vector<float> bad = {(float)c.rng.range(1, 200), 0.5f, 1, 1, 1};
    switch (c.rng.below(3)) {
      case 0: bad[1] = 1 + c.rng.unit(); break;
      case 1: bad[c.rng.below(5)] = -(float)c.rng.unit(); break;
      default: bad.resize(c.rng.range(0, 4));
    }
    ecm.setWeights(bad);
    wg.setWeights(bad);
    c.count("rejected_weight_sets");
  }
  VS x;
  bool big = c.rng.chance(0.01);
  int n = c.rng.chance(0.06) ? 0 : c.rng.range(1, big ? 60 : 7), wl = c.rng.chance(0.01) ? 80 : 6;
  for (int i = 0; i < n; ++i) x.push_back(word(c, wl));
  VS y = prefix(c, x, big ? 40 : 5);
  if (big) c.count("long_sentences");
  bool inc = c.rng.chance(0.6);
  VS yt = y;
  if (!inc) yt.back() += ' ';
  c.note("x=[%s] y=[%s]", join(x).c_str(), join(yt).c_str());
  c.distinct(join(x) + "|" + join(yt));
  // ---- plain distance
  EditDistForVecString ed = ecm.d();
  double want = ved(x, y, false, k), got = ed.calculateEditDist(x, y);
  if (!eq(want, got)) c.fail("word:dist", "distance %.9g, minimum is %.9g", got, want);
  got = ecm.similarity(x, y);
  if (!eq(-want, got)) c.fail("word:similarity", "similarity %.9g, expected %.9g", got, -want);
  unsigned H, I, S, D;
  got = ed.calculateEditDistOps(x, y, H, I, S, D);
  if (!eq(want, got)) c.fail("word:distops", "distance %.9g, minimum is %.9g", got, want);
  if (H + S + D != x.size() || H + S + I != y.size()) c.fail("word:counts", "counts h%u i%u s%u d%u for |x|=%zu |y|=%zu", H, I, S, D, x.size(), y.size());
  {
    EditDistForVec<std::string> ev;
    Cost q;
    if (c.rng.chance(0.5)) { q.h = c.rng.unit(); q.i = 0.1 + c.rng.unit(); q.s = 0.1 + c.rng.unit(); q.d = 0.1 + c.rng.unit(); }
    ev.setErrorModel(q.h, q.i, q.s, q.d);
    std::string xs, ys;   // one character per distinct word
    std::map<std::string, char> id;
    for (auto& w : x) xs += id.insert({w, (char)('A' + id.size())}).first->second;
    for (auto& w : y) ys += id.insert({w, (char)('A' + id.size())}).first->second;
    double r = ced(xs, ys, q);
    got = ev.calculateEditDistOps(x, y, H, I, S, D);
    if (!eq(r, got) || !eq(r, ev.calculateEditDist(x, y))) c.fail("vec:dist", "distance %.9g, minimum is %.9g", got, r);
    if (H + S + D != x.size() || H + S + I != y.size() || !eq(r, H * q.h + I * q.i + S * q.s + D * q.d))
      c.fail("vec:counts", "counts h%u i%u s%u d%u for |x|=%zu |y|=%zu, distance %.9g", H, I, S, D, x.size(), y.size(), r);
  }
  // ---- distance given a prefix
  for (int pd = 0; pd < 2; ++pd) {
    std::vector<unsigned> ow, oc;
    want = pd ? vedp(x, y, inc, k) : ved(x, y, inc, k);
    got = pd ? ed.calculateEditDistPrefixOps(x, yt, ow, oc) : ed.calculateEditDistPrefixOpsNoPrefDel(x, yt, ow, oc);
    if (!eq(want, got)) c.fail(pd ? "word:pref" : "word:nopref", "distance %.9g, minimum is %.9g", got, want);
    App a = apply(c, x, y, inc, ow, k);
    if (!a.ok) c.fail("word:ops", "the operations do not turn x into y");
    if (!pd && a.used != x.size()) c.fail("word:ops", "the operations consume %zu of %zu words", a.used, x.size());
    if (!eq(a.cost, want)) c.fail("word:opscost", "the operations cost %.9g, the distance is %.9g", a.cost, want);
    VS corr;
    if (pd) ecm.correctStrGivenPref(x, yt, corr); else wg.correctStrGivenPrefWg(x, yt, corr);
    // the prefix, then the words of x left over
    if (corr.size() < y.size() || corr.size() != y.size() + (x.size() - a.used)) { std::string os; for (unsigned o : ow) os += std::to_string(o); c.fail("correct:len", "[%s] corrected to [%s]: %zu words, ops %s pd %d used %zu", join(x).c_str(), join(corr).c_str(), corr.size(), os.c_str(), pd, a.used); }
    for (size_t i = 0; i + 1 < y.size(); ++i)
      if (corr[i] != y[i]) c.fail("correct:prefix", "[%s] corrected to [%s]", join(x).c_str(), join(corr).c_str());
    const std::string& lw = corr[y.size() - 1];
    if (inc ? !starts(lw, y.back()) : lw != y.back()) c.fail("correct:last", "[%s] corrected to [%s]", join(x).c_str(), join(corr).c_str());
    if (inc && lw != y.back()) {   // completed: only with a word of x it continues, or by a minimum-cost prefix edit of one
      bool ok = false;
      if (!ow.empty() && a.used > 0 && ow.back() == HIT_OP) {
        size_t at = 0; for (unsigned o : ow) if (o != INS_OP) ++at;
        const std::string& xw = x[at - 1];
        std::string tail = lw.substr(y.back().size());
        ok = tail.size() <= xw.size() && xw.compare(xw.size() - tail.size(), tail.size(), tail) == 0;
      } else ok = true, c.count("completed_earlier");
      if (!ok) c.fail("correct:completion", "[%s] corrected to [%s]", join(x).c_str(), join(corr).c_str());
      c.count("completed_words");
    }
    for (size_t i = 0; i < x.size() - a.used; ++i)
      if (corr[y.size() + i] != x[a.used + i]) c.fail("correct:rest", "[%s] corrected to [%s]", join(x).c_str(), join(corr).c_str());
    c.count("corrections");
  }
  got = ecm.similarityGivenPrefix(x, yt);
  want = -vedp(x, y, inc, k);
  if (!eq(got, want)) c.fail("word:simpref", "similarity given prefix %.9g, expected %.9g", got, want);
  // ---- the empty prefix corrects nothing
  {
    VS e, corr;
    double z = ecm.similarityGivenPrefix(x, e);
    if (!eq(z, 0)) c.fail("empty:sim", "similarity with the empty prefix is %.9g", z);
    ecm.correctStrGivenPref(x, e, corr);
    if (corr != x) c.fail("empty:correct", "[%s] corrected with the empty prefix to [%s]", join(x).c_str(), join(corr).c_str());
  }
  // ---- n-best interface
  {
    NonPbEcModelForNbUcat nb;
    nb.link_ecm(&ecm);
    int rounds = c.rng.range(1, 3);
    for (int q = 0; q < rounds; ++q) {
      VS p = q ? prefix(c, x, 4) : yt;
      if (q && c.rng.chance(0.4)) p.back() += ' ';
      if (q && c.rng.chance(0.15)) p.clear();
      bool pi = !p.empty() && p.back().back() != ' ';
      VS py = p;
      if (!p.empty()) py.back() = strip(py.back());
      std::vector<unsigned> cuts;
      NbestCorrections r = nb.correct(x, cuts, p, 1 + c.rng.below(3));
      if (r.size() != 1) c.fail("nb:size", "%zu corrections", r.size());
      double sw = p.empty() ? 0 : -vedp(x, py, pi, k);
      if (!eq((double)r.begin()->first, sw)) c.fail("nb:score", "correction scored %.9g, expected %.9g", (double)r.begin()->first, sw);
      std::string s = join(r.begin()->second);
      if (p.empty() ? r.begin()->second != x : !starts(s, join(p))) c.fail("nb:correct", "[%s] with prefix [%s] corrected to [%s]", join(x).c_str(), join(p).c_str(), s.c_str());
      c.count("nbest_corrections");
    }
  }
  // ---- incremental: along a path of words, the prefix growing by chunks
  {
    typedef PfsmEcmForWg::EcmScoreInfo Esi;
    Esi init = wg.constructInitEsi();
    std::vector<Esi> st;
    for (size_t i = 0; i < x.size(); ++i) st.push_back(wg.constructEsi(i ? st[i - 1] : init, x[i]));
    VS cur;
    int rounds = c.rng.range(1, 3);
    for (int q = 0; q < rounds; ++q) {
      VS diff;
      int m = c.rng.range(1, 3);
      if (q == 0) { diff = y; }
      else for (int i = 0; i < m; ++i) diff.push_back(word(c, 4));
      bool di = c.rng.chance(0.5);
      // the last word of the previous prefix is taken back first
      if (q) {
        wg.removeLastPosFromEsi(init);
        for (auto& e : st) wg.removeLastPosFromEsi(e);
        diff.insert(diff.begin(), cur.back());
        cur.pop_back();
      }
      if (c.rng.chance(0.3) && cur.size() > 1) {   // and sometimes more of it
        wg.removeLastPosFromEsi(init);
        for (auto& e : st) wg.removeLastPosFromEsi(e);
        cur.pop_back();
      }
      VS t = diff;
      if (!di) t.back() += ' ';
      for (auto& w : diff) cur.push_back(w);
      Esi ni = init;
      wg.extendInitialEsi(t, init, ni);
      init = ni;
      for (size_t i = 0; i < x.size(); ++i) {
        Esi ne = st[i];
        wg.extendEsi(t, i ? st[i - 1] : init, x[i], ne);
        st[i] = ne;
      }
      c.note("incremental prefix [%s]%s", join(cur).c_str(), di ? "" : " complete");
      Mat full = vmat(x, cur, false, k), part = vmat(x, cur, di, k);
      for (size_t i = 0; i <= x.size(); ++i) {
        const Esi& e = i ? st[i - 1] : init;
        std::vector<Score> v = wg.obtainScrVecFromEsi(e);
        if (v.size() != cur.size() + 1) c.fail("incr:size", "%zu scores after a prefix of %zu words", v.size(), cur.size());
        for (size_t j = 0; j <= cur.size(); ++j) {
          double w = j == cur.size() ? part[i][j] : full[i][j];
          if (!eq(-v[j], w)) c.fail("incr:score", "after %zu words of x and %zu of the prefix the score is %.9g, a computation from scratch gives %.9g", i, j, -v[j], w);
        }
        if (!i) continue;
        std::vector<int> li = wg.obtainLastInsPrefWordVecFromEsi(e);
        if (li.size() != cur.size() + 1) c.fail("incr:lastsize", "%zu back pointers for %zu words", li.size(), cur.size());
        for (size_t j = 0; j <= cur.size(); ++j) {
          int b = li[j];
          if (b < 0 || b > (int)j) c.fail("incr:back", "back pointer %d at %zu", b, j);
          bool last = j == cur.size();
          // where the previous row ends at the last column it holds the same kind of score
          double prev = (size_t)b == cur.size() ? part[i - 1][b] : full[i - 1][b];
          VS seg(cur.begin() + b, cur.begin() + j);
          double w = prev + ved(VS(1, x[i - 1]), seg, di && last, k);
          double here = last ? part[i][j] : full[i][j];
          if (!eq(w, here)) c.fail("incr:backcost", "the best path to %zu,%zu is said to leave the previous word at %d, which costs %.9g instead of %.9g", i, j, b, w, here);
        }
        c.count("incremental_cells", cur.size() + 1);
      }
    }
    c.count("incremental_paths");
  }
  c.eval();
}

int main(int argc, char** argv) {
  if (!getenv("VH_VERBOSE")) std::cerr.rdbuf(nullptr);
  return run(argc, argv, [](Ctx& c) {
    if (c.rng.chance(0.3)) chars(c); else words(c);
    if (c.idx < 3) c.sample(c.caselog);
  });
}
