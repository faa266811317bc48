// A small random translation system: model files, the decoder that loads them, and the
// definition of every feature, to score and search by brute force.
#ifndef DECHOST_H
#define DECHOST_H
#include "vh.h"
#include "DynClassFactoryHandler.h"
#include "StdFeatureHandler.h"
#include "CustomFeatureHandler.h"
#include "IncrJelMerNgramLM.h"
#include "IncrHmmP0AligModel.h"
#include "_stackDecoderRec.h"
#include "_pbTransModel.h"
#include "TranslationMetadata.h"
#include "OnTheFlyDictFeat.h"
#include "LevelDbDict.h"
#include <fstream>
#include <memory>
using namespace vh;
typedef std::vector<std::string> VS;
typedef SmtModel::Hypothesis Hyp;

inline std::string S(const VS& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }
inline VS W(const std::string& s) { VS v; std::istringstream i(s); std::string x; while (i >> x) v.push_back(x); return v; }

// keep the library's chatter out of the logs
struct Mute {
  std::streambuf *e, *o; std::ostringstream n;
  Mute() { e = std::cerr.rdbuf(n.rdbuf()); o = std::cout.rdbuf(n.rdbuf()); }
  ~Mute() { std::cerr.rdbuf(e); std::cout.rdbuf(o); }
};

struct Mask {                            // covered source words
  uint64_t b[3] = {0, 0, 0};
  bool operator[](unsigned i) const { return b[i >> 6] >> (i & 63) & 1; }
  void set(unsigned l, unsigned r) { for (unsigned p = l - 1; p < r; ++p) b[p >> 6] |= (uint64_t)1 << (p & 63); }      // words l..r, from 1
  bool operator<(const Mask& o) const { return std::tie(b[0], b[1], b[2]) < std::tie(o.b[0], o.b[1], o.b[2]); }
};
struct Seg { unsigned l, r; VS t; };     // source words l..r (from 1) translated as t

struct TM {
  std::map<std::pair<VS, VS>, double> c;      // (source phrase, target phrase) -> count
  std::map<VS, double> cs, ct;                // count of target phrase c(s), sum per source phrase
  float lambda1 = .01, lambda2 = .01, stop = .999;
  int srcmode = 0, trgmode = 0;               // of .srcsegmlentable and .trgsegmlentable
  std::unique_ptr<IncrHmmP0AligModel> swm, invswm;
  void options(const VS& s, std::set<VS>& o) const { for (auto& k : c) if (k.first.first == s) o.insert(k.first.second); }
  static float sl(double num, double den) {
    if (num == 0 || den == 0) return (float)log(1e-10);
    double l = log(num / den);
    return l < log(1e-10) ? (float)log(1e-10) : (float)l;
  }
  double lpTgivenS(const VS& s, const VS& t) const { auto i = c.find({s, t}); auto j = ct.find(s); return sl(i == c.end() ? 0 : i->second, j == ct.end() ? 0 : j->second); }
  double lpSgivenT(const VS& s, const VS& t) const { auto i = c.find({s, t}); auto j = cs.find(t); return sl(i == c.end() ? 0 : i->second, j == cs.end() ? 0 : j->second); }
};

// a dictionary used as a feature: given in a file, in a LevelDB database, or for one sentence only
struct Dict {
  enum Kind { FILE_, LEVELDB, SENT } kind = FILE_;
  std::map<std::pair<VS, VS>, double> e;
  std::string name;
  double def() const { return kind == SENT ? 0 : -9999999; }
  double score(const VS& s, const VS& t) const { auto i = e.find({s, t}); return i == e.end() ? def() : i->second; }
};

struct World {
  VS sv, tv;
  bool dicts = false;
  std::vector<Dict> cus, otf;         // custom features, features that the metadata of a sentence bring
  std::vector<float> sentw;           // weights that the metadata of a sentence bring
  mutable int nhosts = 0;
  std::vector<std::unique_ptr<TM>> tm;
  std::vector<std::unique_ptr<IncrJelMerNgramLM>> lm;
  unsigned order = 2;
  std::string dir, tmfile, lmfile;
  std::vector<float> w;
  float Wp = 1e6; unsigned A = 10, E = 2, U = 0;
  unsigned S = 100000, I = 1;
  int heur = 0;
  bool bf = true, bsp = false;
  VS lmcorpus;
  bool noties = false;      // counts that leave no two options with the same score

  static VS phrase(Ctx& c, const VS& v, int lo, int hi) { VS p; int n = c.rng.range(lo, hi); for (int i = 0; i < n; ++i) p.push_back(c.rng.pick(v)); return p; }

  void vocab(Ctx& c) {
    static const VS s0 = {"a", "b", "c", "d", "1", "\xc3\xb1", ",", "x_y", "%", "(", "AB", "&"};
    static const VS t0 = {"A", "B", "C", "Ab", "Abc", "2", "\xc3\xa7", ".", "z'", "|", "a", "Bd"};
    VS s = s0, t = t0; c.rng.shuffle(s); c.rng.shuffle(t);
    sv.assign(s.begin(), s.begin() + c.rng.range(2, 6));
    tv.assign(t.begin(), t.begin() + c.rng.range(2, 6));
  }

  static void swm(Ctx& c, IncrHmmP0AligModel& m, const std::vector<std::pair<VS, VS>>& corpus, const std::string& pre) {
    for (auto& p : corpus) { std::pair<unsigned int, unsigned int> r; m.addSentPair(p.first, p.second, 1, r); }
    int n = c.rng.range(1, 3);
    m.set_hmm_p0(.1);
    for (int i = 0; i < n; ++i) m.efficientBatchTrainingForAllSents(0);
    m.print(pre.c_str());
  }

  void gen(Ctx& c, const std::string& d, bool multi = true) {
    Mute mute;
    dir = d;
    mkdir(d.c_str(), 0755);
    vocab(c);
    // language models
    int nlm = multi && c.rng.chance(.15) ? 2 : 1;
    order = c.rng.range(1, 3);
    std::vector<std::string> lmf;
    for (int k = 0; k < nlm; ++k) {
      auto l = std::make_unique<IncrJelMerNgramLM>();
      unsigned o = k + 1 < nlm ? c.rng.range(1, order) : order;     // the last one has the longest history
      l->setNgramOrder(o);
      int n = c.rng.range(1, 8);
      for (int i = 0; i < n; ++i) { VS s = phrase(c, tv, 1, 6); lmcorpus.push_back(::S(s)); l->trainSentence(s, 1, 0, 0); }
      std::string f = d + "/lm" + std::to_string(k);
      l->print(f.c_str());
      { std::ofstream w(f + ".weights"); w << o << " 1 1000"; for (unsigned i = 0; i < o; ++i) w << " " << .15 + .7 * c.rng.unit(); w << "\n"; }
      auto l2 = std::make_unique<IncrJelMerNgramLM>();
      l2->load(f.c_str());
      lm.push_back(std::move(l2));
      lmf.push_back(f);
    }
    lmfile = lmf[0];
    if (nlm > 1 || c.rng.chance(.2)) {
      lmfile = d + "/lm_desc";
      std::ofstream o(lmfile);
      o << "thot lm descriptor\n";
      for (size_t k = 0; k < lmf.size(); ++k) o << getenv("VERIF_PREFIX") << "/lib/incr_jel_mer_ngram_lm_factory.so " << lmf[k].substr(d.size() + 1) << (k ? " lm" + std::to_string(k) : " main") << "\n";
    }
    // translation models
    int ntm = multi && c.rng.chance(.25) ? 2 : 1;
    for (int k = 0; k < ntm; ++k) gentm(c, k);
    tmfile = d + "/tm0";
    if (ntm > 1) {
      tmfile = d + "/tm_desc";
      std::ofstream o(tmfile);
      o << "thot tm descriptor\n";
      for (int k = 0; k < ntm; ++k) o << getenv("VERIF_PREFIX") << "/lib/incr_phrase_model_factory.so tm" << k << (k ? " tm" + std::to_string(k) : " main") << "\n";
    }
    if (dicts && c.rng.chance(.35)) { int n = c.rng.range(1, 2); for (int k = 0; k < n; ++k) gendict(c, cus, c.rng.chance(.6) ? Dict::FILE_ : Dict::LEVELDB, "cus" + std::to_string(k)); }
    if (dicts && c.rng.chance(.25)) { int n = c.rng.range(1, 2); for (int k = 0; k < n; ++k) gendict(c, otf, Dict::SENT, "otf" + std::to_string(k)); }
    static const float sm[] = {.01f, .3f, .5f, .9f, 1.f};
    w.clear();
    size_t nw = ncomp();
    for (size_t i = 0; i < nw; ++i) w.push_back(c.rng.chance(.3) ? 1.f : c.rng.chance(.1) ? 0.f : (float)(c.rng.range(1, 40) / 16.));
    (void)sm;
    c.note("src vocab %s; trg vocab %s; order %u; %d lm, %d tm", ::S(sv).c_str(), ::S(tv).c_str(), order, nlm, ntm);
  }

  void gendict(Ctx& c, std::vector<Dict>& to, Dict::Kind k, const std::string& name) {
    Dict d; d.kind = k; d.name = name;
    static const VS unseen = {"New", "\xc3\xb6x", "n-w", "a"};
    int n = c.rng.range(0, 8);
    for (int i = 0; i < n; ++i) {
      VS s = phrase(c, sv, 1, c.rng.chance(.6) ? 1 : 4), t = phrase(c, tv, 1, c.rng.chance(.6) ? 1 : 3);
      if (c.rng.chance(.2)) t[c.rng.below(t.size())] = c.rng.pick(unseen);
      if (c.rng.chance(.1)) s[c.rng.below(s.size())] = "unseen";
      if (c.rng.chance(.5) && tm.size()) { auto& m = tm[c.rng.below(tm.size())]->c; auto it = m.begin(); std::advance(it, c.rng.below(m.size())); s = it->first.first; t = it->first.second; }
      d.e[{s, t}] = c.rng.range(-400, 100) / 64.;
    }
    to.push_back(d);
  }
  // the descriptor of the custom features, with databases of its own for every decoder that loads it
  std::string cfdesc(Ctx& c) const {
    if (cus.empty()) return "";
    int id = nhosts++;
    std::string f = dir + "/cf" + std::to_string(id);
    std::ofstream o(f);
    o << "thot cf descriptor\n";
    for (auto& d : cus) {
      std::string b = d.name + "_" + std::to_string(id);
      std::string so = d.kind == Dict::FILE_ ? "dict_feat__phrscoreinfo_factory.so" : "leveldb_dict_feat__phrscoreinfo_factory.so";
      if (c.rng.chance(.2)) o << "# " << d.name << " is next\n";
      o << getenv("VERIF_PREFIX") << "/lib/" << so << " " << b << " " << d.name << (c.rng.chance(.2) ? " # with a comment" : "") << "\n";
      bool tool = d.kind == Dict::FILE_ || c.rng.chance(.3);
      if (tool) {
        std::ofstream x(dir + "/" + b + (d.kind == Dict::FILE_ ? "" : ".txt"));
        for (auto& e : d.e) {
          if (c.rng.chance(.2)) x << ::S(e.first.first) << " ||| " << ::S(e.first.second) << " ||| " << -77 << "\n";     // a later line replaces it
          if (c.rng.chance(.1)) x << (c.rng.chance(.5) ? ::S(e.first.first) : ::S(e.first.first) + " ||| " + ::S(e.first.second)) << "\n";     // not an entry
          x << ::S(e.first.first) << " ||| " << ::S(e.first.second) << " ||| " << e.second << "\n";
        }
        x.close();
        if (d.kind == Dict::LEVELDB) {
          std::string cmd = std::string(getenv("VERIF_PREFIX")) + "/bin/thot_dict_to_leveldb -o '" + dir + "/" + b + "' < '" + dir + "/" + b + ".txt' >/dev/null 2>&1";
          int rc = system(cmd.c_str());
          if (rc) c.fail("dict:tool", "thot_dict_to_leveldb ends with %d", rc);
          c.count("leveldb_dictionaries_by_tool");
        }
      } else {
        LevelDbDict l;
        if (l.init(dir + "/" + b) != THOT_OK) c.fail("dict:init", "the dictionary database is not created");
        for (auto& e : d.e) { if (c.rng.chance(.2)) l.addDictEntry(e.first.first, e.first.second, -77); l.addDictEntry(e.first.first, e.first.second, e.second); }
        if (l.size() != d.e.size()) c.fail("dict:size", "%zu entries in the database, %zu stored", l.size(), d.e.size());
      }
      c.count(d.kind == Dict::FILE_ ? "file_dictionaries" : "leveldb_dictionaries");
    }
    return f;
  }

  void gentm(Ctx& c, int k) {
    auto t = std::make_unique<TM>();
    std::string pre = dir + "/tm" + std::to_string(k);
    int n = c.rng.range(2, 14), longest = c.rng.chance(.05) ? 9 : 3;
    for (int i = 0; i < n; ++i) t->c[{phrase(c, sv, 1, c.rng.chance(.5) ? 1 : longest), phrase(c, tv, 1, c.rng.chance(.5) ? 2 : longest)}] += noties ? c.rng.range(1000, 99999) : c.rng.range(1, 9);
    for (auto& x : t->c) { t->ct[x.first.first] += x.second; t->cs[x.first.second] += x.second; }
    for (auto& x : t->cs) if (c.rng.chance(.3)) x.second += c.rng.range(1, 5);      // pairs that were cut from the table
    std::ofstream o(pre + ".ttable");
    for (auto& x : t->c) o << ::S(x.first.second) << " ||| " << ::S(x.first.first) << " ||| " << t->cs[x.first.second] << " " << x.second << "\n";
    o.close();
    static const float L[] = {.01f, .1f, .5f, .9f, 1.f};
    t->lambda1 = t->lambda2 = L[c.rng.below(5)];
    bool two = c.rng.chance(.5);
    if (two) t->lambda2 = L[c.rng.below(5)];
    { std::ofstream f(pre + ".lambda"); f << t->lambda1; if (two) f << " " << t->lambda2; f << "\n"; }
    t->srcmode = c.rng.below(3); t->trgmode = c.rng.below(4);
    static const char* SM[] = {"", "Uniform", "Geometric"};
    static const char* TMd[] = {"", "Uniform", "Geometric", "Poisson"};
    if (t->srcmode) std::ofstream(pre + ".srcsegmlentable") << SM[t->srcmode] << "\n";
    if (t->trgmode) std::ofstream(pre + ".trgsegmlentable") << TMd[t->trgmode] << "\n";
    if (c.rng.chance(.7)) { static const float Q[] = {.999f, .7f, .4f, .9f}; t->stop = Q[c.rng.below(4)]; std::ofstream(pre + ".trgcutstable") << t->stop << "\n"; }
    std::vector<std::pair<VS, VS>> cp, inv;
    int m = c.rng.range(1, 5);
    cp.push_back({sv, tv}); inv.push_back({tv, sv});     // every word of the table is one of the word models
    for (int i = 0; i < m; ++i) { VS a = phrase(c, sv, 1, 4), b = phrase(c, tv, 1, 4); cp.push_back({a, b}); inv.push_back({b, a}); }
    // what was trained and what is loaded from files must agree (P07), so score with what is loaded
    IncrHmmP0AligModel x, y;
    swm(c, x, inv, pre + "_swm"); swm(c, y, cp, pre + "_invswm");
    t->swm.reset(new IncrHmmP0AligModel); t->swm->load((pre + "_swm").c_str());
    t->invswm.reset(new IncrHmmP0AligModel); t->invswm->load((pre + "_invswm").c_str());
    tm.push_back(std::move(t));
  }

  // every word gets a code in the word models before anything is scored with them, so that the
  // size of their vocabulary is the decoder's
  void options(const VS& s, std::set<VS>& o) const {
    for (auto& t : tm) t->options(s, o);
    for (auto* l : {&cus, &otf}) for (auto& d : *l) for (auto& e : d.e) if (e.first.first == s) o.insert(e.first.second);
  }

  // ---- feature definitions
  static double swlp(IncrHmmP0AligModel& m, const VS& s, const VS& t) {
    std::vector<WordIndex> a, b;
    for (auto& x : s) a.push_back(m.stringToSrcWordIndex(x));
    for (auto& x : t) b.push_back(m.stringToTrgWordIndex(x));
    return (double)m.calcLgProbPhr(a, b);
  }
  static double mix(float lam, double ph, double sw) {
    if (lam == 1.f) return ph;
    float a = log(lam) + (float)ph;
    if (a <= log(1e-10)) a = -99999;
    float b = log(1.0 - lam) + (float)sw;
    double hi = std::max(a, b), lo = std::min(a, b);
    return hi + log1p(exp(lo - hi));
  }
  mutable std::map<std::pair<VS, VS>, std::vector<double>> pcache;
  // word penalty excluded; for each TM: direct, inverse
  const std::vector<double>& pair_scores(const VS& s, const VS& t) const {
    auto it = pcache.find({s, t});
    if (it != pcache.end()) return it->second;
    std::vector<double> v;
    for (auto& m : tm) {
      v.push_back(mix(m->lambda1, m->lpTgivenS(s, t), m->lambda1 == 1.f ? 0 : swlp(*m->invswm, s, t)));
      v.push_back(mix(m->lambda2, m->lpSgivenT(s, t), m->lambda2 == 1.f ? 0 : swlp(*m->swm, t, s)));
    }
    return pcache[{s, t}] = v;
  }
  double srclen(const Mask& mask, unsigned l, unsigned r, unsigned J, unsigned tl) const {   // mask: covered before, bit l-1
    const TM& m = *tm[0];
    unsigned len = r - l + 1;
    switch (m.trgmode) {
      case 2: return log(.9) + (len > tl ? len - tl : tl - len) * log(1 - .9);
      case 3: { double la = tl, x = -la + len * log(la); for (unsigned i = 1; i <= len; ++i) x -= log((double)i); return x; }
      default: {
        unsigned nx = J;
        for (unsigned p = r + 1; p <= J; ++p) if (mask[p - 1]) { nx = p; break; }
        return -log((double)(nx - l + 1));
      }
    }
  }
  double trglen(unsigned n) const { return tm[0]->srcmode == 2 ? log(.9) + n * log(1 - .9) : -log(101. - 0 * n); }
  double jump(unsigned prevEnd, unsigned l) const {
    int o = abs((int)l - (int)(prevEnd + 1));
    float st = tm[0]->stop;
    return (float)o * log((float)(1 - st)) + log(st);
  }
  typedef std::vector<std::vector<WordIndex>> LS;    // one state per LM
  LS begin() const { LS s; for (auto& l : lm) { std::vector<WordIndex> x; l->getStateForBeginOfSentence(x); s.push_back(x); } return s; }
  // components of adding one segment; st is advanced
  void comps(const VS& src, const Seg& g, const Mask& mask, unsigned prevEnd, LS& st, bool last, std::vector<double>& v) const {
    size_t k = 0;
    v[k++] += g.t.size() * log(1 - .7);
    for (size_t i = 0; i < lm.size(); ++i) {
      double x = 0;
      for (auto& wd : g.t) x += (double)lm[i]->getNgramLgProbGivenState(lm[i]->existSymbol(wd) ? lm[i]->stringToWordIndex(wd) : lm[i]->stringToWordIndex("<unk>"), st[i]);
      if (last) x += (double)lm[i]->getLgProbEndGivenState(st[i]);
      v[k++] += x;
    }
    VS s(src.begin() + g.l - 1, src.begin() + g.r);
    for (double x : pair_scores(s, g.t)) v[k++] += x;
    size_t base = 1 + lm.size() + 2;
    (void)base;
    v[k++] += srclen(mask, g.l, g.r, src.size(), g.t.size());
    v[k++] += trglen(g.t.size());
    v[k++] += jump(prevEnd, g.l);
    for (auto* l : {&cus, &otf}) for (auto& d : *l) v[k++] += d.score(s, g.t);
  }
  size_t nstd() const { return 1 + lm.size() + 2 * tm.size() + 3; }
  size_t ncomp() const { return nstd() + cus.size() + otf.size(); }
  // score of a phrase pair by the dictionaries
  double dictscore(const VS& s, const VS& t) const { double x = 0; size_t k = nstd(); for (auto* l : {&cus, &otf}) for (auto& d : *l) x += wt(k++) * d.score(s, t); return x; }
  std::vector<double> comps(const VS& src, const std::vector<Seg>& h) const {
    std::vector<double> v(ncomp(), 0);
    v[0] = log(.7);
    LS st = begin();
    Mask mask; unsigned pe = 0, cov = 0;
    for (auto& g : h) {
      cov += g.r - g.l + 1;
      comps(src, g, mask, pe, st, cov == src.size(), v);
      mask.set(g.l, g.r);
      pe = g.r;
    }
    return v;
  }
  // the part of a score that dictionaries give: exact, and huge for pairs they do not have
  double dictpart(const std::vector<double>& v) const { double x = 0; for (size_t i = nstd(); i < v.size(); ++i) x += v[i] * wt(i); return x; }
  bool same(double x, double y, double dp) const { return close_enough(x - dp, y - dp, 2e-4, 2e-3 + 1e-9 * fabs(dp)); }
  double dot(const std::vector<double>& v) const { double x = 0; for (size_t i = 0; i < v.size(); ++i) x += v[i] * wt(i); return x; }
  std::vector<float> ew;      // effective weights
  double wt(size_t i) const { return i < ew.size() ? ew[i] : 1.0; }
};

// the factories are opened once per process
inline DynClassFactoryHandler& factories() {
  static DynClassFactoryHandler* h = nullptr;
  if (!h) {
    Mute m;
    h = new DynClassFactoryHandler;
    std::string ini = std::string(getenv("VERIF_PREFIX")) + "/share/thot/ini_files/master.ini";
    if (h->init_smt_and_imt(ini, 0) == THOT_ERROR) { fprintf(stderr, "factories do not load from %s\n", ini.c_str()); _exit(9); }
  }
  return *h;
}

// metadata that bring features and weights with the sentence
struct Meta : TranslationMetadata<SmtModel::HypScoreInfo> {
  const World& w;
  std::vector<OnTheFlyDictFeat<SmtModel::HypScoreInfo>*> f;
  explicit Meta(const World& w) : w(w) { fill(); }
  void fill() {
    while (f.size() < w.otf.size()) { f.push_back(new OnTheFlyDictFeat<SmtModel::HypScoreInfo>); f.back()->setFeatName("on_the_fly_" + w.otf[f.size() - 1].name); }
    for (size_t i = 0; i < f.size(); ++i) { f[i]->clearDict(); for (auto& e : w.otf[i].e) { f[i]->addTransOption(e.first.first, e.first.second, -3, "x"); f[i]->addTransOption(e.first.first, e.first.second, e.second, "i" + S(e.first.second)); } }
  }
  void obtainTransConstraints(std::string s, int v = 0) override { TranslationMetadata<SmtModel::HypScoreInfo>::obtainTransConstraints(s, v); fill(); }
  std::vector<BasePbTransModelFeature<SmtModel::HypScoreInfo>*> getOnTheFlyModelFeatures(void) override { return {f.begin(), f.end()}; }
  void clear(void) override { TranslationMetadata<SmtModel::HypScoreInfo>::clear(); for (auto x : f) x->clearDict(); }
  std::vector<float> getLogLinearModelWeightsForSrcSent(void) override { return w.sentw; }
  ~Meta() { for (auto x : f) delete x; }
};
inline BaseTranslationMetadata<SmtModel::HypScoreInfo>* mkmeta(const World& w) {
  if (w.dicts) return new Meta(w);
  auto& h = factories();
  return h.baseTranslationMetadataDynClassLoader.make_obj(h.baseTranslationMetadataInitPars);
}

struct Acc : SmtModel {
  using SmtModel::trgIndexVectorToStrVector;
  using SmtModel::nullHypothesisScrComps;
};

struct Host {
  StdFeatureHandler std_;
  CustomFeatureHandler cus;
  BaseTranslationMetadata<SmtModel::HypScoreInfo>* meta = nullptr;
  Acc* m = nullptr;
  BaseStackDecoder<SmtModel>* dec = nullptr;
  _stackDecoderRec<SmtModel>* rec = nullptr;
  bool ok = false;
  explicit Host(const World& w, const std::string& cf = "") {
    Mute mute;
    auto& h = factories();
    m = new Acc;
    m->link_std_feats_info(std_.getFeatureInfoPtr());
    std_.setWordPenSoFile(h.baseWordPenaltyModelSoFileName);
    std_.setDefaultLangSoFile(h.baseNgramLMSoFileName);
    std_.setDefaultTransSoFile(h.basePhraseModelSoFileName);
    std_.setDefaultSingleWordSoFile(h.baseSwAligModelSoFileName);
    m->link_custom_feats_info(cus.getFeatureInfoPtr());
    meta = mkmeta(w);
    m->link_trans_metadata(meta);
    ok = std_.loadMonolingualFeats(w.lmfile, 0) == THOT_OK && std_.loadBilingualFeats(w.tmfile, 0) == THOT_OK && (cf.empty() || cus.loadCustomFeats(cf, 0) == THOT_OK);
    dec = h.baseStackDecoderDynClassLoader.make_obj(h.baseStackDecoderInitPars);
    dec->link_smt_model(m);
    rec = dynamic_cast<_stackDecoderRec<SmtModel>*>(dec);
    pars(w);
  }
  void pars(const World& w) {
    dec->set_S_par(w.S); dec->set_I_par(w.I); dec->set_breadthFirst(w.bf); dec->useBestScorePruning(w.bsp);
    m->set_W_par(w.Wp); m->set_A_par(w.A); m->set_E_par(w.E); m->set_U_par(w.U);
    m->setHeuristic(w.heur);
    m->setWeights(w.w);
  }
  ~Host() {
    Mute mute;
    delete dec;
    m->clear();
    delete m;
    delete meta;
    std_.clear();
    cus.clear();
  }
  std::vector<Seg> segs(const Hyp& h, const SmtModel* mm = nullptr) {
    PhrHypData d = h.getData();
    VS t = m->trgIndexVectorToStrVector(d.ntarget);
    std::vector<Seg> r;
    unsigned prev = 0;
    for (size_t i = 0; i < d.sourceSegmentation.size(); ++i) {
      Seg g; g.l = d.sourceSegmentation[i].first; g.r = d.sourceSegmentation[i].second;
      unsigned e = i < d.targetSegmentCuts.size() ? d.targetSegmentCuts[i] : prev;
      for (unsigned k = prev + 1; k <= e && k < t.size(); ++k) g.t.push_back(t[k]);
      prev = e;
      r.push_back(g);
    }
    return r;
  }
};

inline std::string show(const std::vector<Seg>& v) { std::string o; for (auto& g : v) o += "[" + std::to_string(g.l) + "-" + std::to_string(g.r) + " " + S(g.t) + "]"; return o; }
#endif
