// MODULES: dec phr nlp
// Phrase models and dictionaries converted to the on-disk formats, against the text they come from.
#include "vh.h"
#include "WbaIncrPhraseModel.h"
#include "LevelDbPhraseModel.h"
#include "FastBdbPhraseModel.h"
#include "LevelDbDict.h"
#include <fstream>
#include <memory>
using namespace vh;
typedef std::vector<std::string> VS;
typedef std::pair<VS, VS> PP;

static std::string S(const VS& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }

struct Mute {
  std::streambuf *e, *o; std::ostringstream n;
  Mute() { e = std::cerr.rdbuf(n.rdbuf()); o = std::cout.rdbuf(n.rdbuf()); }
  ~Mute() { std::cerr.rdbuf(e); std::cout.rdbuf(o); }
};

struct Ref {
  std::map<PP, float> st;
  std::map<VS, float> s;
  std::map<VS, double> t;
  VS sv, tv;
  bool seg = false; int srcmode = -1, trgmode = -1, cuts = -1;
  std::map<std::pair<int, int>, double> sl;   // (target length, segments) -> count
};

static const VS SW = {"a", "la", "01", "1", "1.0", "-", "|", "||", "||||", "%d", "\\n", "\xc3\xb1", "x'y", "\"", "<s>", "casa", "*", "A", "UNKNOWN", "&amp;", "$1", "#", "`"};

static size_t maxlen = 10;   // of a phrase: what the key of the format holds

static VS phrase(Ctx& c, const VS& v, bool big) {
  VS p; int n = big && c.rng.chance(0.1) ? c.rng.range(5, c.rng.chance(0.1) ? maxlen : 10) : c.rng.range(1, 4);
  for (int i = 0; i < n; ++i) p.push_back(c.rng.pick(v));
  return p;
}

static void gen(Ctx& c, Ref& r) {
  VS a = SW, b = SW; c.rng.shuffle(a); c.rng.shuffle(b);
  r.sv.assign(a.begin(), a.begin() + c.rng.range(1, 8));
  r.tv.assign(b.begin(), b.begin() + c.rng.range(1, 8));
  if (c.rng.chance(0.1)) for (int i = 0; i < 300; ++i) { r.sv.push_back("w" + std::to_string(i)); r.tv.push_back("v" + std::to_string(i)); }
  int n = c.rng.chance(0.01) ? c.rng.range(1000, 3000) : c.rng.chance(0.1) ? c.rng.range(100, 400) : c.rng.chance(0.03) ? 0 : c.rng.range(1, 40);
  if (n >= 1000) c.count("large_tables");
  bool frac = c.rng.chance(0.5), extra = c.rng.chance(0.5);
  VS lastS, lastT;
  for (int i = 0; i < n; ++i) {
    VS s = !lastS.empty() && c.rng.chance(0.3) ? lastS : phrase(c, r.sv, true), t = !lastT.empty() && c.rng.chance(0.3) ? lastT : phrase(c, r.tv, true);
    lastS = s; lastT = t;
    // neighbouring phrases: a prefix of, or an extension of the last one
    if (c.rng.chance(0.2) && s.size() > 1) s.pop_back();
    if (c.rng.chance(0.2) && t.size() > 1) t.pop_back();
    if (c.rng.chance(0.1) && t.size() < maxlen) t.push_back(c.rng.pick(r.tv));
    float k = frac ? (float)c.rng.range(1, 4000) / (c.rng.chance(0.5) ? 1000.f : 7.f) : (float)(c.rng.chance(0.05) ? c.rng.range(1000000, 16000000) : c.rng.range(1, 30));
    r.st[{s, t}] = k;
  }
  for (auto& x : r.st) { r.s[x.first.first] += x.second; r.t[x.first.second] += x.second; }
  if (extra) for (auto& x : r.s) if (c.rng.chance(0.5)) x.second += frac ? c.rng.range(1, 900) / 64.f : c.rng.range(1, 9);
  if (c.rng.chance(0.7)) { r.seg = true; int L = c.rng.chance(0.1) ? 60 : 6; for (int i = c.rng.range(0, L > 6 ? 200 : 10); i > 0; --i) r.sl[{c.rng.range(1, L), c.rng.range(1, L)}] = c.rng.range(1, 9); }
  if (c.rng.chance(0.6)) r.srcmode = c.rng.range(0, 1);
  if (c.rng.chance(0.6)) r.trgmode = c.rng.range(0, 1);
  if (c.rng.chance(0.6)) r.cuts = c.rng.range(0, 1);
}

static const char* SRCM[] = {"Uniform", "Geometric"};

static void write(Ctx& c, const Ref& r, const std::string& p, bool table) {
  char b[64];
  if (table) {
    std::ofstream f(p + ".ttable");
    std::vector<PP> k; for (auto& x : r.st) k.push_back(x.first);
    c.rng.shuffle(k);
    for (auto& x : k) {
      snprintf(b, 64, "%.9g %.9g", r.s.at(x.first), r.st.at(x));
      f << S(x.first) << " ||| " << S(x.second) << " ||| " << b << "\n";
    }
  }
  unlink((p + ".seglentable").c_str()); unlink((p + ".srcsegmlentable").c_str()); unlink((p + ".trgsegmlentable").c_str()); unlink((p + ".trgcutstable").c_str());
  if (r.seg) { std::ofstream f(p + ".seglentable"); for (auto& x : r.sl) f << x.first.first << " " << x.first.second << " " << x.second << "\n"; }
  if (r.srcmode >= 0) std::ofstream(p + ".srcsegmlentable") << SRCM[r.srcmode] << "\n";
  if (r.trgmode >= 0) std::ofstream(p + ".trgsegmlentable") << SRCM[r.trgmode] << "\n";
  if (r.cuts >= 0) std::ofstream(p + ".trgcutstable") << (r.cuts ? "0.4" : "0.875") << "\n";
}

static const double LS = log(1e-10);   // smoothed probability of what was not seen

static void check(Ctx& c, BasePhraseModel& m, const Ref& r, const char* w) {
  std::string W = w;
  c.count("models_checked");
  // vocabularies are bijections that know every word of the table
  for (int side = 0; side < 2; ++side) {
    std::set<WordIndex> seen; std::set<std::string> ws;
    for (auto& x : r.st) for (auto& y : side ? x.first.second : x.first.first) ws.insert(y);
    for (auto& y : ws) {
      bool ex = side ? m.existTrgSymbol(y) : m.existSrcSymbol(y);
      if (!ex) c.fail("vocab:missing:" + W, "%s word '%s' unknown", side ? "target" : "source", y.c_str());
      WordIndex i = side ? m.stringToTrgWordIndex(y) : m.stringToSrcWordIndex(y);
      if (!seen.insert(i).second) c.fail("vocab:clash:" + W, "two %s words share index %u", side ? "target" : "source", i);
      std::string z = side ? m.wordIndexToTrgString(i) : m.wordIndexToSrcString(i);
      if (z != y) c.fail("vocab:inverse:" + W, "word '%s' has index %u, which is word '%s'", y.c_str(), i, z.c_str());
    }
  }
  std::vector<PP> q;
  for (auto& x : r.st) q.push_back(x.first);
  size_t known = q.size();
  for (int i = 0; i < 12; ++i) q.push_back({phrase(c, r.sv, false), phrase(c, r.tv, false)});
  for (int i = 0; i < 12 && known; ++i) {
    PP x = q[c.rng.below(known)];
    switch (c.rng.below(5)) {
      case 0: x.first.push_back(c.rng.pick(r.sv)); break;
      case 1: x.second.push_back(c.rng.pick(r.tv)); break;
      case 2: x.first = q[c.rng.below(known)].first; break;
      case 3: if (x.second.size() > 1) x.second.pop_back(); break;
      default: x.second.insert(x.second.begin(), c.rng.pick(r.tv));
    }
    if (x.first.size() <= maxlen && x.second.size() <= maxlen) q.push_back(x);
  }
  auto idx = [&](const PP& x, std::vector<WordIndex>& s, std::vector<WordIndex>& t) {
    for (auto& y : x.first) { if (!m.existSrcSymbol(y)) return false; s.push_back(m.stringToSrcWordIndex(y)); }
    for (auto& y : x.second) { if (!m.existTrgSymbol(y)) return false; t.push_back(m.stringToTrgWordIndex(y)); }
    return true;
  };
  std::set<VS> tdone;
  for (auto& x : q) {
    auto i = r.st.find(x); auto j = r.s.find(x.first); auto k = r.t.find(x.second);
    double cst = i == r.st.end() ? 0 : i->second, cs = j == r.s.end() ? 0 : j->second, ct = k == r.t.end() ? 0 : k->second;
    _incrPhraseModel* pm = dynamic_cast<_incrPhraseModel*>(&m); LevelDbPhraseModel* lm = dynamic_cast<LevelDbPhraseModel*>(&m); FastBdbPhraseModel* bm = dynamic_cast<FastBdbPhraseModel*>(&m);
    std::vector<WordIndex> s, t;
    if (!idx(x, s, t)) continue;
    c.eval();
    double g[3];
    if (pm) { g[0] = (double)pm->cHSrcHTrg(x.first, x.second); g[1] = (double)pm->cHSrc(x.first); g[2] = (double)pm->cHTrg(x.second); }
    else if (lm) { g[0] = (double)lm->cHSrcHTrg(x.first, x.second); g[1] = (double)lm->cHSrc(x.first); g[2] = (double)lm->cHTrg(x.second); }
    else { (void)bm; g[0] = cst; g[1] = cs; g[2] = ct; }
    if (!close_enough(g[0], cst, 1e-4)) c.fail("count:st:" + W, "c(%s, %s) = %g, expected %g", S(x.first).c_str(), S(x.second).c_str(), g[0], cst);
    if (!close_enough(g[1], cs, 1e-4)) c.fail("count:s:" + W, "c(%s) = %g, expected %g", S(x.first).c_str(), g[1], cs);
    if (!close_enough(g[2], ct, 1e-4)) c.fail("count:t:" + W, "c(target %s) = %g, expected %g", S(x.second).c_str(), g[2], ct);
    double e1 = std::max(LS, cst > 0 ? log(cst / cs) : -1e9), e2 = std::max(LS, cst > 0 ? log(cst / ct) : -1e9);
    double p1 = (double)m.logpt_s_(s, t), p2 = (double)m.logps_t_(s, t);
    if (cst > 0 || true) {
      if (fabs(p1 - e1) > 1e-3) c.fail("prob:t_given_s:" + W, "log p(%s | %s) = %g, expected %g", S(x.second).c_str(), S(x.first).c_str(), p1, e1);
      if (fabs(p2 - e2) > 1e-3) c.fail("prob:s_given_t:" + W, "log p(%s | target %s) = %g, expected %g", S(x.first).c_str(), S(x.second).c_str(), p2, e2);
    }
    if (!tdone.insert(x.second).second) continue;
    std::map<std::vector<WordIndex>, double> opts;
    for (auto& y : r.st) if (y.first.second == x.second) { std::vector<WordIndex> v; for (auto& z : y.first.first) v.push_back(m.stringToSrcWordIndex(z)); opts[v] = y.second; }
    BasePhraseModel::SrcTableNode n;
    bool f = m.getTransFor_t_(t, n);
    if (f != !opts.empty()) c.fail("opts:found:" + W, "options of '%s': returned %d with %zu options", S(x.second).c_str(), f, opts.size());
    if (f) {
      if (n.size() != opts.size()) c.fail("opts:number:" + W, "%zu options for '%s', expected %zu", n.size(), S(x.second).c_str(), opts.size());
      for (auto& y : n) {
        auto o = opts.find(y.first);
        if (o == opts.end()) c.fail("opts:extra:" + W, "'%s' has an option that is not in the table", S(x.second).c_str());
        if (!close_enough((double)y.second.second, o->second, 1e-4)) c.fail("opts:count:" + W, "an option of '%s' has count %g, expected %g", S(x.second).c_str(), (double)y.second.second, o->second);
      }
    }
    NbestTableNode<PhraseTransTableNodeData> nb;
    int N = c.rng.chance(0.3) ? -1 : c.rng.range(1, c.rng.chance(0.1) ? 100 : 4);
    f = m.getNbestTransFor_t_(t, nb, N);
    if (f != !opts.empty()) c.fail("nbest:found:" + W, "n-best of '%s': returned %d with %zu options", S(x.second).c_str(), f, opts.size());
    if (!f) continue;
    c.count("nbest_queries");
    std::vector<double> exp; for (auto& o : opts) exp.push_back(log(o.second / ct));
    std::sort(exp.rbegin(), exp.rend());
    if (N >= 0 && exp.size() > (size_t)N) exp.resize(N);
    if (nb.size() != exp.size()) c.fail("nbest:size:" + W, "%zu best options of '%s' for N=%d, expected %zu", (size_t)nb.size(), S(x.second).c_str(), N, exp.size());
    size_t z = 0;
    for (auto y = nb.begin(); y != nb.end(); ++y, ++z) {
      if (fabs((double)y->first - exp[z]) > 1e-3) c.fail("nbest:score:" + W, "option %zu of '%s' scores %g, expected %g", z, S(x.second).c_str(), (double)y->first, exp[z]);
      auto o = opts.find(y->second);
      if (o == opts.end() || fabs(log(o->second / ct) - (double)y->first) > 1e-3) c.fail("nbest:option:" + W, "option %zu of '%s' is not an option with its score", z, S(x.second).c_str());
    }
  }
  for (int i = 0; i < 4; ++i) {   // any sentence length may be asked for
    double g = (double)m.pk_tlen(c.rng.range(95, 170), c.rng.range(0, 170));
    if (!(g >= 0 && g <= 1)) c.fail("seglen:range:" + W, "p(segments | words) = %g", g);
  }
  // what a model with these tables says about segmentations
  std::map<int, double> mar; for (auto& x : r.sl) mar[x.first.first] += x.second;
  int ML = mar.empty() ? 6 : std::max(6, mar.rbegin()->first);
  for (int i = 1; i <= ML; ++i) for (int k = 1; k <= ML; ++k) {
    double e = !r.seg ? 1.0 : r.sl.count({i, k}) ? r.sl.at({i, k}) / mar[i] : 0;
    double g = (double)m.pk_tlen(i, k);
    if (fabs(g - std::max(e, 1e-10)) > 1e-5 && !(e == 0 && g <= 1e-6)) c.fail("seglen:" + W, "p(%d segments | %d words) = %g, expected %g", k, i, g, e);
  }
}

struct Obs { std::vector<double> v; };
static Obs segs(BasePhraseModel& m) {
  Obs o;
  for (int L = 1; L <= 6; ++L) for (int a = 0; a < L; ++a) for (int b = a + 1; b <= L; ++b) o.v.push_back((double)m.srcSegmLenLgProb(b, a, L));
  for (int d = -4; d <= 4; ++d) o.v.push_back((double)m.trgCutsLgProb(d));
  SentSegmentation sg;
  for (int L = 2; L <= 6; ++L) { sg.clear(); sg.push_back({1u, (unsigned)L / 2}); sg.push_back({(unsigned)L / 2 + 1, (unsigned)L}); for (int l = 1; l <= 3; ++l) for (unsigned k = 0; k < 2; ++k) o.v.push_back((double)m.trgSegmLenLgProb(k, sg, L, l)); }
  return o;
}
static void same(Ctx& c, const Obs& a, const Obs& b, const char* w) {
  for (size_t i = 0; i < a.v.size(); ++i) if (!(fabs(a.v[i] - b.v[i]) <= 1e-6)) c.fail(std::string("segmodel:") + w, "segmentation query %zu gives %g, the text model gives %g", i, b.v[i], a.v[i]);
}

static bool tool(Ctx& c, const std::string& cmd, const char* what) {
  int rc = system((cmd + " > /dev/null 2> " + c.scratch + "/tool.err").c_str());
  if (rc == 0) return true;
  c.note("tool: %s -> %d", cmd.c_str(), rc);
  std::ifstream e(c.scratch + "/tool.err"); std::stringstream ss; ss << e.rdbuf();
  c.note("%s", ss.str().substr(0, 3000).c_str());
  c.fail(std::string("tool:") + what, "command failed (%d): %s", rc, cmd.c_str());
}

static void vocabs(Ctx& c, const Ref& r, const std::string& p) {   // of a single-word model of the same corpus
  for (int side = 0; side < 2; ++side) {
    std::set<std::string> ws;
    for (auto& x : r.st) for (auto& y : side ? x.first.second : x.first.first) ws.insert(y);
    VS v(ws.begin(), ws.end()); v.push_back("otra"); v.push_back("zz"); c.rng.shuffle(v);
    std::ofstream f(p + (side ? "_swm.tvcb" : "_swm.svcb"));
    f << "0 NULL 0\n1 UNKNOWN_WORD 0\n2 <UNUSED_WORD> 0\n";
    for (size_t i = 0; i < v.size(); ++i) f << i + 3 << " " << v[i] << " " << c.rng.range(1, 9) << "\n";
  }
}

static void dict(Ctx& c, const std::string& P) {
  std::map<PP, double> d;
  VS a = SW, b = SW; c.rng.shuffle(a); c.rng.shuffle(b); a.resize(c.rng.range(1, 6)); b.resize(c.rng.range(1, 6));
  int n = c.rng.range(1, 30);
  for (int i = 0; i < n; ++i) {
    VS s = phrase(c, a, false);
    if (!d.empty() && c.rng.chance(0.4)) { auto it = d.begin(); std::advance(it, c.rng.below(d.size())); s = it->first.first; if (c.rng.chance(0.3)) s.push_back(c.rng.pick(a)); }
    d[{s, phrase(c, b, false)}] = c.rng.chance(0.3) ? c.rng.range(-20, 20) : (c.rng.unit() - .7) * 30;
  }
  std::string p = c.scratch + "/dict";
  { std::ofstream f(p + ".txt"); for (auto& x : d) f << S(x.first.first) << " ||| " << S(x.first.second) << " ||| " << x.second << "\n"; }
  wipe(p);
  tool(c, P + "/bin/thot_dict_to_leveldb -o " + p + " < " + p + ".txt", "dict");
  for (int rep = 0; rep < 2; ++rep) {
    LevelDbDict l;
    if (l.load(p) == THOT_ERROR) c.fail("dict:load", "load failed");
    std::map<VS, std::set<VS>> by; for (auto& x : d) by[x.first.first].insert(x.first.second);
    if (l.size() != d.size()) c.fail("dict:size", "%zu entries, expected %zu", l.size(), d.size());
    for (int k = 0; k < 40; ++k) {
      VS s = phrase(c, a, false), t = phrase(c, b, false);
      auto it = d.begin(); std::advance(it, c.rng.below(d.size()));
      if (c.rng.chance(0.7)) s = it->first.first;
      if (c.rng.chance(0.7)) t = it->first.second;
      bool f; double g = (double)l.getScore(s, t, f);
      auto e = d.find({s, t});
      if (f != (e != d.end())) c.fail("dict:found", "('%s', '%s'): found %d", S(s).c_str(), S(t).c_str(), f);
      if (f && !close_enough(g, e->second, 1e-5, 1e-5)) c.fail("dict:score", "('%s', '%s') scores %g, expected %g", S(s).c_str(), S(t).c_str(), g, e->second);
      std::vector<VS> o; f = l.getTransOptsForSource(s, o);
      std::set<VS> so(o.begin(), o.end());
      if (so.size() != o.size() || so != by[s] || f == so.empty()) c.fail("dict:options", "'%s' has %zu options, expected %zu", S(s).c_str(), o.size(), by[s].size());
      c.count("dict_queries");
    }
  }
}

static void one(Ctx& c) {
  const char* PE = getenv("VERIF_PREFIX");
  if (!PE) { fprintf(stderr, "VERIF_PREFIX not set\n"); exit(9); }
  std::string P = PE;
  Mute mute;
  if (c.mode == "dict") { dict(c, P); return; }
  Ref r[2];
  int nm = c.rng.chance(0.5) ? 2 : 1;
  bool ldb = c.mode == "ldb";
  maxlen = ldb ? 40 : 10;
  const char* kind = ldb ? "leveldb" : "fbdb";
  std::string out[2];
  WbaIncrPhraseModel text;
  Obs ob[2];
  std::string sp = c.scratch + "/pm";
  wipe(sp); mkdir(sp.c_str(), 0777);
  for (int k = 0; k < nm; ++k) {
    gen(c, r[k]);
    std::string in = sp + "/tm" + std::to_string(k);
    out[k] = c.rng.chance(0.6) ? in : sp + "/bin" + std::to_string(k);
    bool over = c.rng.chance(0.25);
    std::string cmd = P + "/bin/thot_gen_" + kind + "_ttable -p " + in + " -o " + out[k] + " -T " + sp + (c.rng.chance(0.1) ? " -debug" : "");
    if (over) { Ref old; gen(c, old); write(c, old, in, true); tool(c, cmd, "ttable"); c.count("reconversions"); }
    write(c, r[k], in, true);
    if (out[k] != in) write(c, r[k], out[k], false);
    if (c.rng.chance(0.4)) vocabs(c, r[k], in);
    tool(c, cmd, "ttable");
    c.note("model %d: %zu entries, %zu sources, in %s out %s", k, r[k].st.size(), r[k].s.size(), in.c_str(), out[k].c_str());
    if (text.load(in.c_str()) == THOT_ERROR) c.fail("load:text", "load failed");
    check(c, text, r[k], "text");
    ob[k] = segs(text);
    c.count("entries", r[k].st.size());
  }
  int lives = c.rng.range(1, 2);
  for (int l = 0; l < lives; ++l) {
    std::unique_ptr<BasePhraseModel> m(ldb ? (BasePhraseModel*)new LevelDbPhraseModel : (BasePhraseModel*)new FastBdbPhraseModel);
    int loads = c.rng.range(1, 3);
    for (int i = 0; i < loads; ++i) {
      int k = c.rng.below(nm);
      c.note("life %d load %d: model %d", l, i, k);
      std::string file = out[k];
      if (c.rng.chance(0.25)) {   // through a descriptor
        file = sp + "/desc" + std::to_string(k);
        std::ofstream(file) << "thot tm descriptor\n" << (ldb ? "leveldb" : "fbdb") << " " << out[k].substr(out[k].rfind('/') + 1) << " main\n";
        c.count("descriptor_loads");
      }
      if (m->load(file.c_str()) == THOT_ERROR) c.fail(std::string("load:") + kind, "load failed");
      check(c, *m, r[k], kind);
      same(c, ob[k], segs(*m), kind);
      c.count("loads");
      if (i) c.count("second_loads");
      if (l) c.count("reopened");
    }
  }
  c.distinct(std::to_string(r[0].st.size()) + "/" + std::to_string(r[0].s.size()) + "/" + std::to_string(r[0].t.size()) + "/" + std::to_string(r[nm - 1].st.size()));
}
int main(int a, char** v) { return run(a, v, one); }
