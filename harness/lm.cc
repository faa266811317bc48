// MODULES: incr dhs nlp
// n-gram language models against a reference Jelinek-Mercer model (in memory and LevelDB)
#include "vh.h"
#include "IncrJelMerNgramLM.h"
#include "IncrJelMerLevelDbNgramLM.h"
#include <fstream>
#include <sys/wait.h>
#include <memory>
using namespace vh;
typedef std::vector<std::string> VS;
typedef _incrJelMerNgramLM<Count, Count> LM;

struct Ref {
  unsigned order = 3;
  unsigned nb = 1;
  double bsize = 0;
  std::vector<double> w;
  std::map<VS, double> ng, hist;   // n-gram and history counts
  std::set<std::string> vocab{"<unk>", "<s>", "</s>", "<sp_sym1>"};
  bool shared = false;             // LevelDB: history count of h is the n-gram count of h
  void add(const VS& h, const std::string& t, double c) {
    VS g = h; g.push_back(t);
    ng[g] += c; hist[h] += c;
    for (auto& x : g) vocab.insert(x);
  }
  void train(const VS& s, double c) {
    VS p; p.push_back("<s>");
    for (auto& x : s) p.push_back(x);
    p.push_back("</s>");
    for (size_t e = 0; e < p.size(); ++e)
      for (unsigned n = 1; n <= order && n <= e + 1; ++n)
        add(VS(p.begin() + (e + 1 - n), p.begin() + e), p[e], c);
  }
  double ch(const VS& h) {
    if (shared && !h.empty()) { auto i = ng.find(h); return i == ng.end() ? 0 : i->second; }
    auto i = hist.find(h); return i == hist.end() ? 0 : i->second;
  }
  double cg(const VS& h, const std::string& t) { VS g = h; g.push_back(t); auto i = ng.find(g); return i == ng.end() ? 0 : i->second; }
  double rec(const VS& h, const std::string& t) {
    double wt;
    if (nb == 1) wt = w[h.size()];
    else {
      double b = trunc((float)ch(h) / bsize);
      size_t k = b > nb - 1 ? nb - 1 : (size_t)b;
      wt = w[h.size() * nb + k];
    }
    double c = ch(h), g = cg(h, t);
    double f = (c > 0 && g > 0) ? g / c : 0;
    double low = h.empty() ? 1.0 / vocab.size() : rec(VS(h.begin() + 1, h.end()), t);
    return wt * f + (1 - wt) * low;
  }
  double p(VS h, std::string t) {
    for (auto& x : h) if (!vocab.count(x)) x = "<unk>";
    if (!vocab.count(t)) t = "<unk>";
    while (h.size() >= 2 && h[0] == "<s>" && h[1] == "<s>") h.erase(h.begin());
    return rec(h, t);
  }
  double sent(const VS& s) {   // natural log
    VS st(order ? order - 1 : 0, "<s>");
    double tot = 0;
    VS q = s; q.push_back("</s>");
    for (auto& x : q) { tot += log(p(st, x)); if (!st.empty()) { st.erase(st.begin()); st.push_back(x); } }
    return tot;
  }
};

static std::string S(const VS& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }

static void weights_file(Ctx& c, Ref& r, const std::string& pre) {
  std::ofstream f(pre + ".weights");
  f << r.order << " " << r.nb << " " << r.bsize;
  for (double x : r.w) f << " " << x;
  f << "\n";
}

static VS randsent(Ctx& c, const VS& words, int maxlen) {
  VS s; int n = c.rng.range(0, maxlen);
  for (int i = 0; i < n; ++i) s.push_back(c.rng.pick(words));
  return s;
}

static void compare(Ctx& c, LM& m, Ref& r, const VS& words, const char* what) {
  std::vector<VS> hs;
  hs.push_back({});
  for (int i = 0; i < 14; ++i) {
    VS h; int n = c.rng.range(0, (int)r.order - 1);
    for (int k = 0; k < n; ++k) h.push_back(c.rng.chance(0.15) ? "<s>" : c.rng.chance(0.05) ? "</s>" : c.rng.chance(0.05) ? "<unk>" : c.rng.pick(words));
    hs.push_back(h);
  }
  int z = 0;
  for (auto& kv : r.hist) if (c.rng.chance(0.3) && z++ < 20) hs.push_back(kv.first);
  std::vector<std::string> all(r.vocab.begin(), r.vocab.end());
  if (m.getVocabSize() != r.vocab.size()) c.fail(std::string("lm:vocabsize:") + what, "vocabulary size %u, expected %zu", m.getVocabSize(), r.vocab.size());
  for (auto& h : hs) {
    if (h.size() + 1 > r.order) continue;
    double sum = 0;
    std::vector<WordIndex> hi;
    for (auto& x : h) hi.push_back(m.stringToWordIndex(x));
    bool canon = !(h.size() >= 2 && h[0] == "<s>" && h[1] == "<s>");
    if (canon && !h.empty() && !close_enough((double)m.cHistStr(h), r.ch(h), 1e-4)) {
      bool known = true;
      for (auto& x : h) known &= r.vocab.count(x) > 0;
      if (known) c.fail(std::string("lm:chist:") + what, "c(%s)=%g, expected %g", S(h).c_str(), (double)m.cHistStr(h), r.ch(h));
    }
    for (auto& t : all) {
      double e = r.p(h, t), g = (double)m.getNgramLgProb(m.stringToWordIndex(t), hi);
      double gp = exp(g);
      sum += gp;
      if (!close_enough(gp, e, 2e-4, 1e-9)) c.fail(std::string("lm:prob:") + what, "P(%s|%s)=%.9g, expected %.9g", t.c_str(), S(h).c_str(), gp, e);
      if (canon && !close_enough((double)m.cNgramStr(t, h), r.cg(h, t), 1e-4)) c.fail(std::string("lm:cngram:") + what, "c(%s,%s)=%g, expected %g", S(h).c_str(), t.c_str(), (double)m.cNgramStr(t, h), r.cg(h, t));
      c.eval();
      c.count("probabilities");
    }
    if (sum > 1.0005) c.fail(std::string("lm:sum:") + what, "probabilities after '%s' add up to %.9g", S(h).c_str(), sum);
    VS hh = h; while (hh.size() >= 2 && hh[0] == "<s>" && hh[1] == "<s>") hh.erase(hh.begin());
    bool seen = true;
    for (size_t i = 0; i <= hh.size(); ++i) { VS q(hh.begin() + i, hh.end()); double tot = 0; for (auto& t : all) tot += r.cg(q, t); if (!(r.ch(q) > 0) || !close_enough(tot, r.ch(q), 1e-4)) seen = false; }
    if (seen) {
      c.count("normalised_contexts");
      if (!close_enough(sum, 1.0, 5e-4)) c.fail(std::string("lm:norm:") + what, "probabilities after seen context '%s' add up to %.9g", S(h).c_str(), sum);
    }
  }
  // state interface, sentence probability
  for (int i = 0; i < 4; ++i) {
    VS s = randsent(c, words, 7);
    if (c.rng.chance(0.3)) s.push_back("neverseen");
    double e = r.sent(s);
    double g = (double)m.getSentenceLog10ProbStr(s) * M_LN10;
    if (!close_enough(g, e, 1e-4, 1e-4)) c.fail(std::string("lm:sent:") + what, "log P(%s)=%.9g, expected %.9g", S(s).c_str(), g, e);
    std::vector<WordIndex> st, st2;
    m.getStateForBeginOfSentence(st);
    m.getStateForBeginOfSentence(st2);
    double tot = 0;
    VS h(r.order - 1, "<s>");
    for (auto& x : s) {
      double a = (double)m.getNgramLgProbGivenStateStr(x, st);
      double b = (double)m.getNgramLgProbGivenState(m.stringToWordIndex(x), st2);
      tot += a;
      double ex = log(r.p(h, x));
      if (!close_enough(a, ex, 1e-4, 1e-5) || !close_enough(b, ex, 1e-4, 1e-5)) c.fail(std::string("lm:state:") + what, "state log P(%s)=%g/%g, expected %g", x.c_str(), a, b, ex);
      if (!h.empty()) { h.erase(h.begin()); h.push_back(x); }
      if (st != st2) c.fail("lm:statediff", "states differ after %s", x.c_str());
    }
    tot += (double)m.getLgProbEndGivenState(st);
    if (!close_enough(tot, e, 1e-4, 1e-4)) c.fail(std::string("lm:statesum:") + what, "state sum for '%s' %.9g, expected %.9g", S(s).c_str(), tot, e);
    c.count("sentences");
  }
}

static void perp(Ctx& c, LM& m, Ref& r, const VS& words) {
  std::string f = c.scratch + "/corpus";
  std::ofstream o(f);
  double tot = 0; unsigned ns = 0, nw = 0;
  int n = c.rng.range(1, 6);
  for (int i = 0; i < n; ++i) {
    VS s = randsent(c, words, 6);
    o << S(s) << "\n";
    if (s.empty()) { continue; }
    ns++; nw += s.size();
    tot += r.sent(s) / M_LN10;
  }
  o.close();
  if (!ns) return;
  unsigned a, b; LgProb lp; double p;
  if (m.perplexity(f.c_str(), a, b, lp, p) == THOT_ERROR) c.fail("lm:perp", "perplexity failed");
  double ep = exp(-(tot / (nw + ns)) * M_LN10);
  if (a != ns || b != nw || !close_enough((double)lp, tot, 1e-4, 1e-4) || !close_enough(p, ep, 1e-3)) c.fail("lm:perp", "perplexity: %u sentences %u words lp %g perp %g; expected %u %u %g %g", a, b, (double)lp, p, ns, nw, tot, ep);
  c.count("perplexities");
}

static bool tool(Ctx& c, const std::string& cmd) {
  int rc = system(cmd.c_str());
  if (rc == 0) return true;
  c.note("tool: %s -> %d", cmd.c_str(), rc);
  std::ifstream e(c.scratch + "/tool.err"); std::stringstream ss; ss << e.rdbuf();
  c.note("%s", ss.str().substr(0, 3000).c_str());
  c.fail("lm:tool", "command failed (%d): %s", rc, cmd.c_str());
}

static void one(Ctx& c) {
  bool ldb = c.mode == "ldb";
  Ref r;
  r.order = c.rng.range(1, 4);
  if (c.rng.chance(.03)) { r.order = c.rng.range(5, 8); c.count("high_orders"); }
  bool big = c.rng.chance(.03);
  r.nb = c.rng.chance(0.5) ? 1 : c.rng.range(2, 4);
  r.bsize = r.nb == 1 ? 0 : c.rng.range(1, 4);
  for (unsigned i = 0; i < r.order * r.nb; ++i) r.w.push_back(c.rng.range(10, 980) / 1000.0);
  VS pool = {"a", "b", "casa", "\xc3\xb1", "12", "x,", "<unk>", "||", "la", "Z"};
  VS words;
  int nw = c.rng.range(2, 7);
  c.rng.shuffle(pool);
  for (int i = 0; i < nw; ++i) words.push_back(pool[i]);
  if (big) { for (int i = c.rng.range(10, 300); i > 0; --i) words.push_back("w" + std::to_string(i)); c.count("large_vocabularies"); }
  double unit = c.rng.chance(0.7) ? 1 : c.rng.chance(0.5) ? 0.25 : 150000;
  std::vector<std::pair<VS, double>> sents;
  int ns = c.rng.range(1, big ? 40 : 8);
  std::string desc;
  for (int i = 0; i < ns; ++i) { sents.push_back({randsent(c, words, big ? 60 : 7), unit * c.rng.range(1, 2)}); desc += S(sents.back().first) + " | "; }
  c.note("order %u buckets %u size %g unit %g: %s", r.order, r.nb, r.bsize, unit, desc.c_str());
  c.distinct(desc + std::to_string(r.order) + "/" + std::to_string(r.nb) + c.mode);
  c.sample(desc);
  std::string pre = c.scratch + "/lm";
  wipe(pre); wipe(pre + "2");
  weights_file(c, r, pre);

  std::unique_ptr<IncrJelMerNgramLM> m(new IncrJelMerNgramLM);
  if (m->loadWeights(pre.c_str()) == THOT_ERROR) c.fail("lm:weights", "loadWeights failed");
  if (m->getNgramOrder() != r.order) c.fail("lm:order", "order %u after loading weights of order %u", m->getNgramOrder(), r.order);
  for (auto& s : sents) {
    // queries in between must not change anything
    if (c.rng.chance(0.3)) { VS q = randsent(c, words, 5); (void)m->getSentenceLog10ProbStr(q); }
    m->trainSentence(s.first, s.second);
    r.train(s.first, s.second);
    c.count("trained_sentences");
  }
  compare(c, *m, r, words, "trained");
  perp(c, *m, r, words);
  if (m->print(pre.c_str()) == THOT_ERROR) c.fail("lm:print", "print failed");
  double unit2 = unit >= 1000 ? 1 : unit;

  // the saved file holds every n-gram once, with its counts
  {
    std::ifstream f(pre);
    std::string line; std::map<VS, std::pair<double, double>> got;
    while (std::getline(f, line)) {
      std::istringstream is(line); VS v; std::string x; while (is >> x) v.push_back(x);
      if (v.size() < 3) c.fail("lm:file", "bad line '%s'", line.c_str());
      VS g(v.begin(), v.end() - 2);
      if (got.count(g)) c.fail("lm:file:dup", "n-gram listed twice: %s", line.c_str());
      got[g] = {atof(v[v.size() - 2].c_str()), atof(v.back().c_str())};
    }
    for (auto& kv : r.ng) {
      auto it = got.find(kv.first);
      VS h(kv.first.begin(), kv.first.end() - 1);
      if (it == got.end()) c.fail("lm:file:missing", "n-gram '%s' not saved", S(kv.first).c_str());
      if (!close_enough(it->second.second, kv.second, 1e-4) || !close_enough(it->second.first, r.ch(h), 1e-4)) c.fail("lm:file:count", "n-gram '%s' saved with %g %g, expected %g %g", S(kv.first).c_str(), it->second.first, it->second.second, r.ch(h), kv.second);
    }
    if (got.size() != r.ng.size()) c.fail("lm:file:extra", "%zu n-grams saved, expected %zu", got.size(), r.ng.size());
  }
  // entries in any order give the same model
  std::string load = pre;
  if (c.rng.chance(0.7)) {
    std::ifstream f(pre); std::vector<std::string> ls; std::string l;
    while (std::getline(f, l)) ls.push_back(l);
    f.close();
    c.rng.shuffle(ls);
    std::ofstream o(pre); for (auto& x : ls) o << x << "\n";
  }
  unsigned seenorder = 0;
  for (auto& kv : r.ng) seenorder = std::max<unsigned>(seenorder, kv.first.size());

  if (!ldb) {
    IncrJelMerNgramLM m2;
    if (c.rng.chance(0.3)) { m2.setNgramOrder(3); m2.trainSentence({"junk", "words"}, 1); m2.clear(); m2.clearVocab(); IncrJelMerNgramLM tmp; }
    else {
      if (m2.load(pre.c_str()) == THOT_ERROR) c.fail("lm:load", "load failed");
      if (m2.getNgramOrder() != seenorder && m2.getNgramOrder() != r.order) c.fail("lm:order", "order %u after load, expected %u", m2.getNgramOrder(), r.order);
      m2.setNgramOrder(r.order);
      compare(c, m2, r, words, "loaded");
      // keep training the loaded model, with new words
      VS w2 = words; w2.push_back("nuevo"); w2.push_back("otro");
      for (int i = 0; i < 3; ++i) { VS s = randsent(c, w2, 6); m2.trainSentence(s, unit2); r.train(s, unit2); }
      compare(c, m2, r, w2, "retrained");
      if (c.idx % 40 == 7 && unit < 1000) {
        // weight optimisation never makes the tuning corpus less likely
        std::ofstream o(c.scratch + "/dev"); for (int i = 0; i < 4; ++i) { VS s = randsent(c, words, 6); s.push_back(words[0]); o << S(s) << "\n"; }
        o.close();
        unsigned a, b; LgProb lp; double p0, p1;
        m2.perplexity((c.scratch + "/dev").c_str(), a, b, lp, p0);
        int ret = m2.updateModelWeights((c.scratch + "/dev").c_str());
        m2.perplexity((c.scratch + "/dev").c_str(), a, b, lp, p1);
        if (ret == THOT_OK && p1 > p0 * 1.0001) c.fail("lm:tune", "weight update raised perplexity from %g to %g", p0, p1);
        if (!(p1 > 0)) c.fail("lm:tune", "perplexity %g after weight update", p1);
        c.count(ret == THOT_OK ? "weight_updates" : "weight_updates_failed");
      }
    }
  } else {
    const char* P = getenv("VERIF_PREFIX");
    if (!P) { fprintf(stderr, "VERIF_PREFIX not set\n"); exit(9); }
    std::string d = c.scratch + "/ldb";
    wipe(d); unlink((d + ".ldb_vcb").c_str());
    tool(c, std::string(P) + "/bin/thot_ngram_to_leveldb -o " + d + " < " + pre + " > /dev/null 2> " + c.scratch + "/tool.err");
    { std::ifstream i(pre + ".weights"); std::ofstream o(d + ".weights"); o << i.rdbuf(); }
    r.shared = true;
    VS w2 = words;
    int rounds = c.rng.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      std::unique_ptr<IncrJelMerLevelDbNgramLM> l(new IncrJelMerLevelDbNgramLM);
      if (l->load(d.c_str()) == THOT_ERROR) c.fail("lm:ldb:load", "load failed");
      if (l->getNgramOrder() != r.order) c.fail("lm:order", "order %u after load of LevelDB model, expected %u", l->getNgramOrder(), r.order);
      compare(c, *l, r, w2, k ? "leveldb-reopened" : "leveldb");
      perp(c, *l, r, words);
      c.count("leveldb_opens");
      if (c.rng.chance(0.4)) { w2.push_back("nuevo" + std::to_string(k)); w2.push_back("otro"); }
      for (int i = 0; i < 3; ++i) { VS s = randsent(c, w2, 6); l->trainSentence(s, unit2); r.train(s, unit2); }
      compare(c, *l, r, w2, "leveldb-retrained");
      if (l->print(d.c_str()) == THOT_ERROR) c.fail("lm:ldb:print", "print of a loaded model failed");
    }
  }
}
int main(int a, char** v) { return run(a, v, one); }
