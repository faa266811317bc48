// LINK: shared
// Online learning: every acknowledged sentence pair updates the models as defined (a second set of models, loaded from the same files, is
// updated by the definition), other pairs leave them alone, and the models printed are the ones in use.
#include "dechost.h"
#include "ThotDecoder.h"
#include "WordAligMatrix.h"
#include <algorithm>
#include <tuple>

typedef std::vector<std::vector<unsigned>> M;      // [i][j]: word i of the first sentence, word j of the second
typedef std::map<std::pair<VS, VS>, double> Cnt;   // (target phrase, source phrase)

static std::string q(const std::string& s) { return "'" + s + "'"; }

struct R {
  M m; unsigned I, J;
  int at(int i, int j) const { return i >= 0 && j >= 0 && i < (int)I && j < (int)J && m[i][j]; }
  bool row(int i) const { for (auto v : m[i]) if (v) return true; return false; }
  bool col(int j) const { for (unsigned i = 0; i < I; ++i) if (m[i][j]) return true; return false; }
};
static M un(const WordAligMatrix& w) { M m(w.get_I(), std::vector<unsigned>(w.get_J())); for (unsigned i = 0; i < w.get_I(); ++i) for (unsigned j = 0; j < w.get_J(); ++j) m[i][j] = w.getValue(i, j); return m; }
// the intersection, grown with the links of the union next to a link or between words without links
static M symmetrise(const M& a, const M& b, unsigned J) {
  R r{a, (unsigned)a.size(), J};
  for (unsigned i = 0; i < r.I; ++i) for (unsigned j = 0; j < J; ++j) r.m[i][j] = a[i][j] && b[i][j];
  for (bool go = true; go;) {
    go = false;
    for (int i = 0; i < (int)r.I; ++i) for (int j = 0; j < (int)J; ++j) {
      if (r.m[i][j] || !(a[i][j] || b[i][j])) continue;
      bool h = r.at(i, j - 1) || r.at(i, j + 1), v = r.at(i - 1, j) || r.at(i + 1, j);
      if ((!r.row(i) && !r.col(j)) || h || v) { r.m[i][j] = 1; go = true; }
    }
  }
  return r.m;
}
// consistent phrase pairs (as in P03) of at most seven words on the second side
static void consistent(const M& m, const VS& a, const VS& b, std::vector<std::pair<VS, VS>>& res) {
  unsigned I = a.size(), J = b.size(); std::vector<bool> sal(I);
  for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) if (m[i][j]) sal[i] = true;
  typedef std::vector<bool> B; std::vector<std::vector<B>> opt(J);
  for (unsigned j = 0; j < J; ++j) {
    B x0(I); int lo = -1, hi = -1;
    for (unsigned i = 0; i < I; ++i) if (m[i][j]) { x0[i] = true; if (lo < 0) lo = i; hi = i; }
    if (lo >= 0) for (int i = lo; i <= hi; ++i) if (!sal[i]) x0[i] = true;
    opt[j].push_back(x0);
    if (lo >= 0) {
      B x = x0; int k = lo; while (k > 0 && !sal[k - 1]) x[--k] = true; if (k != lo) opt[j].push_back(x);
      x = x0; k = hi; while (k + 1 < (int)I && !sal[k + 1]) x[++k] = true; if (k != hi) opt[j].push_back(x);
    }
  }
  for (unsigned y1 = 0; y1 < J; ++y1) {
    std::set<B> cur{B(I)};
    for (unsigned y2 = y1; y2 < J && y2 - y1 < 7; ++y2) {
      std::set<B> nx; for (auto& x : cur) for (auto& o : opt[y2]) { B z = x; for (unsigned i = 0; i < I; ++i) if (o[i]) z[i] = true; nx.insert(z); }
      cur.swap(nx);
      for (auto& x : cur) {
        int lo = -1, hi = -1, n = 0; for (unsigned i = 0; i < I; ++i) if (x[i]) { if (lo < 0) lo = i; hi = i; ++n; }
        if (!n || hi - lo + 1 != n) continue;
        bool whole = y1 == 0 && y2 + 1 == J, ok = true;
        if (whole && n != (int)I) continue;
        for (unsigned j = 0; j < J && ok && !whole; ++j) if (j < y1 || j > y2) for (unsigned i = 0; i < I; ++i) if (m[i][j] && x[i]) ok = false;
        if (ok) res.push_back({VS(a.begin() + lo, a.begin() + hi + 1), VS(b.begin() + y1, b.begin() + y2 + 1)});
      }
    }
  }
}
static bool categ(const VS& v) { for (auto& w : v) if (w == "<digit>" || w == "<number>" || w == "<alfanum>") return true; return false; }

// the models as they have to be
struct Shadow {
  IncrJelMerNgramLM lm;
  IncrHmmP0AligModel direct, inverse;      // target words given source words, source words given target words
  Cnt c; std::map<VS, double> ct;          // pairs; target phrases
  std::map<int, std::vector<std::pair<VS, VS>>> given;      // what a sample has contributed
  std::vector<std::pair<VS, VS>> seen;
  float step = 1; unsigned E = 1, Rr = 0;
  bool train(Ctx& cx, const VS& s, const VS& t) {
    if (s.empty() || t.empty()) return false;
    lm.trainSentence(t, step, 0, 0);
    for (auto& x : s) { direct.addSrcSymbol(x); inverse.addTrgSymbol(x); }
    for (auto& x : t) { direct.addTrgSymbol(x); inverse.addSrcSymbol(x); }
    std::pair<unsigned int, unsigned int> r, r2;
    direct.addSentPair(s, t, step, r);
    inverse.addSentPair(t, s, step, r2);
    int cur = r.second;
    for (unsigned i = 1; i <= E; ++i) {
      int n = cur - (int)Rr + (int)(i * (Rr / E));
      if (n < 0) continue;
      direct.trainSentPairRange({(unsigned)n, (unsigned)n}, 0);
      inverse.trainSentPairRange({(unsigned)n, (unsigned)n}, 0);
      VS a, b; Count k;
      direct.nthSentPair(n, a, b, k);
      WordAligMatrix w, v;
      inverse.obtainBestAlignmentVecStr(b, a, w);
      direct.obtainBestAlignmentVecStr(a, b, v);
      M mw = un(w), mv = un(v), x(mw.size(), std::vector<unsigned>(a.size()));
      for (unsigned p = 0; p < b.size(); ++p) for (unsigned o = 0; o < a.size(); ++o) x[p][o] = mv[o][p];
      std::vector<std::pair<VS, VS>> e, f;
      consistent(symmetrise(mw, x, a.size()), b, a, e);
      for (auto& p : e) if ((!categ(p.first) && !categ(p.second)) || p.first == p.second) f.push_back(p);
      if (given.count(n)) { for (auto& p : given[n]) { c[p] -= 1; ct[p.first] -= 1; } cx.count("samples_revisited"); }
      for (auto& p : f) { c[p] += 1; ct[p.first] += 1; }
      given[n] = f;
      cx.count("pairs_extracted", f.size());
      cx.count("iterations");
    }
    return true;
  }
};

struct Dec {
  ThotDecoder d; ThotDecoderUserPars up; std::set<int> users; bool ok;
  explicit Dec(const std::string& cfg) { ok = d.initUsingCfgFile(cfg, up, 0) == THOT_OK; }
  void user(int u) { if (users.insert(u).second) d.initUserPars(u, up, 0); }
  std::pair<std::string, std::string> trans(int u, const std::string& s) { user(u); std::string r, i; d.translateSentence(u, s.c_str(), r, i); return {r, i}; }
};

static Cnt readtable(Ctx& c, const std::string& f, std::map<VS, double>& ct) {
  Cnt r; std::ifstream i(f); std::string l;
  while (getline(i, l)) {
    VS v = W(l), p[2]; size_t k = 0, x = 0;
    for (; x < v.size() && k < 2; ++x) { if (v[x] == "|||") ++k; else p[k].push_back(v[x]); }
    if (k != 2 || v.size() != x + 2) c.fail("table:format", "line '%s' of the table printed", l.c_str());
    if (r.count({p[0], p[1]})) c.fail("table:twice", "two lines for %s ||| %s", S(p[0]).c_str(), S(p[1]).c_str());
    r[{p[0], p[1]}] = atof(v[x + 1].c_str());
    double n = atof(v[x].c_str());
    if (ct.count(p[0]) && fabs(ct[p[0]] - n) > 1e-4) c.fail("table:margin", "two counts of %s: %g and %g", S(p[0]).c_str(), ct[p[0]], n);
    ct[p[0]] = n;
  }
  return r;
}

static void lexical(Ctx& c, IncrHmmP0AligModel& a, IncrHmmP0AligModel& b, const VS& sv, const VS& tv, const char* what) {
  for (auto& s : sv) for (auto& t : tv) {
    double x = a.pts(a.stringToSrcWordIndex(s), a.stringToTrgWordIndex(t)), y = b.pts(b.stringToSrcWordIndex(s), b.stringToTrgWordIndex(t));
    if (!close_enough(x, y, 1e-3, 1e-7)) c.fail(std::string("lexical:") + what, "p(%s|%s) is %.8g, and %.8g by the definition (%s)", t.c_str(), s.c_str(), x, y, what);
    c.count("lexical_compared");
  }
  if (a.numSentPairs() != b.numSentPairs()) c.fail(std::string("samples:") + what, "%u sentence pairs, of %u (%s)", a.numSentPairs(), b.numSentPairs(), what);
  for (unsigned n = 0; n < b.numSentPairs(); ++n) {
    VS s, t, u, v; Count k, l;
    a.nthSentPair(n, s, t, k); b.nthSentPair(n, u, v, l);
    if (s != u || t != v || !close_enough((double)k, (double)l)) c.fail(std::string("sample:") + what, "sentence pair %u is %s ||| %s (%g), not %s ||| %s (%g)", n, S(s).c_str(), S(t).c_str(), (double)k, S(u).c_str(), S(v).c_str(), (double)l);
    auto f = [&](IncrHmmP0AligModel& m) { std::vector<WordIndex> i, j; for (auto& x : s) i.push_back(m.stringToSrcWordIndex(x)); for (auto& x : t) j.push_back(m.stringToTrgWordIndex(x)); return (double)m.calcLgProb(i, j); };
    double x = f(a), y = f(b);
    if (!close_enough(x, y, 2e-3, 1e-4)) c.fail(std::string("score:") + what, "log-probability of pair %u is %g, and %g by the definition (%s)", n, x, y, what);
  }
}

static std::vector<std::string> countlines(const std::string& f) { std::vector<std::string> v; std::ifstream i(f); std::string l; while (getline(i, l)) v.push_back(l); std::sort(v.begin(), v.end()); return v; }

static void one(Ctx& c) {
  static int serial = 0;
  World w;
  std::string dir = c.scratch + "/w" + std::to_string(serial++);
  w.gen(c, dir);
  bool desc = w.tmfile.find("tm_desc") != std::string::npos;
  std::string tm0 = dir + "/tm0", lm0 = dir + "/lm0";
  Shadow sh;
  static const float ST[] = {1, 1, 1, .5f, 2, .1f};
  static const int ER[][2] = {{1, 0}, {1, 0}, {1, 0}, {2, 2}, {2, 4}, {2, 5}, {3, 6}, {3, 7}, {2, 0}, {1, 3}, {3, 2}, {0, 0}, {4, 9}};
  int er = c.rng.below(13);
  sh.step = ST[c.rng.below(6)]; sh.E = ER[er][0]; sh.Rr = ER[er][1];
  std::string cfg = dir + "/cfg";
  { std::ofstream o(cfg); o << "-tm " << w.tmfile << "\n-lm " << w.lmfile << "\n-W 1000\n-S 50\n-A 7\n-nomon " << c.rng.below(3) << "\n-h 0\n";
    if (sh.step != 1 || er || c.rng.chance(.5)) o << "-olp 0 0 " << sh.step << " " << c.rng.range(1, 5) << " " << sh.E << " " << sh.Rr << "\n"; }
  c.note("step %g, E %u, R %u%s", sh.step, sh.E, sh.Rr, desc ? ", several translation models" : "");
  std::unique_ptr<Mute> mute(new Mute);
  sh.lm.load(lm0.c_str());
  sh.direct.load((tm0 + "_invswm").c_str()); sh.inverse.load((tm0 + "_swm").c_str());
  for (auto& x : w.tm[0]->c) sh.c[{x.first.second, x.first.first}] = x.second;
  sh.ct = w.tm[0]->cs;
  std::unique_ptr<Dec> D(new Dec(cfg));
  mute.reset();
  if (!D->ok) c.fail("init", "the decoder does not load its configuration");
  VS news = {"n1", "n2", "<number>", "<digit>", "\xc3\xb8"}, sv = w.sv, tv = w.tv, other;
  std::vector<std::string> others;
  for (size_t k = 1; k < w.tm.size(); ++k) others.push_back(dir + "/tm" + std::to_string(k) + ".ttable");
  for (size_t k = 1; k < w.lm.size(); ++k) others.push_back(dir + "/lm" + std::to_string(k));
  auto state = [&](const std::string& f) {
    std::vector<std::string> r;
    if (f.find(".ttable") == std::string::npos) return countlines(f);
    std::map<VS, double> ct; Cnt t = readtable(c, f, ct);
    for (auto& x : t) r.push_back(S(x.first.first) + " ||| " + S(x.first.second) + " " + std::to_string(x.second) + " of " + std::to_string(ct[x.first.first]));
    return r;
  };
  std::vector<std::vector<std::string>> before; for (auto& f : others) before.push_back(state(f));
  auto sent = [&](VS& v, int hi) { VS o; if (c.rng.chance(.015)) { hi = 15; c.count("long_sentences"); } int n = c.rng.range(1, hi); for (int i = 0; i < n; ++i) { std::string x = c.rng.chance(.12) ? c.rng.pick(news) : c.rng.pick(v); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); o.push_back(x); } return o; };
  int nops = c.rng.range(4, c.rng.chance(.03) ? 60 : 14), trained = 0;
  std::vector<std::pair<VS, VS>> hist;
  auto verify = [&](bool reload) {
    std::unique_ptr<Mute> m(new Mute);
    // what the running decoder answers
    std::vector<std::string> ss; std::vector<std::pair<std::string, std::string>> a;
    for (int i = 0; i < 3; ++i) { VS o; int n = c.rng.range(1, 4); for (int k = 0; k < n; ++k) o.push_back(c.rng.pick(sv)); ss.push_back(S(o)); }
    if (!hist.empty()) ss.push_back(S(c.rng.pick(hist).first));
    for (auto& s : ss) a.push_back(D->trans(c.rng.range(1, 2), s));
    if (D->d.printModels() != THOT_OK) c.fail("print", "the models are not printed");
    // the table
    std::map<VS, double> ct; Cnt t = readtable(c, tm0 + ".ttable", ct);
    for (auto& x : sh.c) {
      auto i = t.find(x.first); double got = i == t.end() ? 0 : i->second;
      if (!close_enough(got, x.second, 1e-5, 1e-4)) c.fail("table:count", "c(%s ||| %s) is %g, and %g by the definition", S(x.first.first).c_str(), S(x.first.second).c_str(), got, x.second);
      if (x.second > 1e-3) { if (!close_enough(ct[x.first.first], sh.ct[x.first.first], 1e-5, 1e-4)) c.fail("table:target", "c(%s) is %g, and %g by the definition", S(x.first.first).c_str(), ct[x.first.first], sh.ct[x.first.first]); }
      c.count("phrase_counts_compared");
    }
    for (auto& x : t) if (x.second > 1e-3 && !sh.c.count(x.first)) c.fail("table:extra", "c(%s ||| %s) is %g, no sentence pair contributes it", S(x.first.first).c_str(), S(x.first.second).c_str(), x.second);
    // the alignment models
    IncrHmmP0AligModel d2, i2; d2.load((tm0 + "_invswm").c_str()); i2.load((tm0 + "_swm").c_str());
    lexical(c, d2, sh.direct, sv, tv, "direct"); lexical(c, i2, sh.inverse, tv, sv, "inverse");
    // the language model
    std::string f = dir + "/shlm"; sh.lm.print(f.c_str());
    auto x = countlines(lm0), y = countlines(f);
    if (x != y) {
      for (auto& l : x) if (!std::binary_search(y.begin(), y.end(), l)) c.fail("lm:counts", "the language model printed has '%s'", l.c_str());
      for (auto& l : y) if (!std::binary_search(x.begin(), x.end(), l)) c.fail("lm:counts", "the language model printed lacks '%s'", l.c_str());
      c.fail("lm:counts", "repeated counts");
    }
    c.count("lm_counts_compared", x.size());
    for (size_t k = 0; k < others.size(); ++k) if (state(others[k]) != before[k]) c.fail("others", "%s changes", others[k].c_str());
    // a decoder that loads what was printed
    if (reload) {
      std::unique_ptr<Dec> N(new Dec(cfg));
      if (!N->ok) c.fail("reload", "the models printed are not loaded");
      for (size_t k = 0; k < ss.size(); ++k) {
        auto b = N->trans(1, ss[k]);
        auto score = [](const std::string& x) { size_t i = x.find("Score: "); return i == std::string::npos ? 0 : atof(x.c_str() + i + 7); };
        double x1 = score(a[k].second), x2 = score(b.second);
        if (!close_enough(x1, x2, 1e-3, 1e-3)) { m.reset(); c.note("running: %s", a[k].second.c_str()); c.note("loaded: %s", b.second.c_str()); c.fail("answers", "%s is translated with score %g, and with %g once the printed models are loaded", q(ss[k]).c_str(), x1, x2); }
        if (a[k].first == b.first) c.count("same_answers");
        c.count("answers_compared");
      }
      D = std::move(N);
      sh.given.clear();      // the contributions of samples are not part of the models
      c.count("reloaded");
    }
    c.eval(); c.count("verified");
  };
  for (int k = 0; k < nops; ++k) {
    int op = c.rng.below(10);
    if (op < 6) {
      VS s = sent(sv, 5), t = sent(tv, 5);
      if (!hist.empty() && c.rng.chance(.3)) { auto p = c.rng.pick(hist); s = p.first; t = p.second; }
      std::string a = S(s), b = S(t);
      if (c.rng.chance(.1)) a = c.rng.chance(.5) ? "" : " ", s.clear();
      else if (c.rng.chance(.1)) b = c.rng.chance(.5) ? "" : "  ", t.clear();
      if (c.rng.chance(.15)) a = " " + a, b += "  ";
      c.note("train %s ||| %s", q(a).c_str(), q(b).c_str());
      int u = c.rng.range(1, 2); D->user(u);
      int rc; { Mute m; rc = D->d.onlineTrainSentPair(u, a.c_str(), b.c_str()); }
      bool want = sh.train(c, s, t);
      if ((rc == THOT_OK) != want) c.fail("status", "training with %s ||| %s %s", q(a).c_str(), q(b).c_str(), rc == THOT_OK ? "is acknowledged" : "fails");
      if (want) { hist.push_back({s, t}); ++trained; c.count("trained"); } else c.count("refused");
      c.distinct(a + "|" + b + std::to_string(trained));
    } else if (op < 8) {
      VS o; int n = c.rng.range(1, 4); for (int i = 0; i < n; ++i) o.push_back(c.rng.pick(sv));
      Mute m; D->trans(c.rng.range(1, 2), S(o));
    } else {
      c.note(op == 8 ? "print" : "print and load again");
      verify(op == 9);
    }
  }
  c.note("print");
  verify(true);
  c.sample(c.caselog);
  { Mute m; D.reset(); }
  wipe(dir);
}

int main(int argc, char** argv) { return vh::run(argc, argv, one); }
