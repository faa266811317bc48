// MODULES: nlp phr
// Phrase tables against a reference count model (property phrase-tables).
#include "vh.h"
#include "StlPhraseTable.h"
#include "HatTriePhraseTable.h"
#include "LevelDbPhraseTable.h"
#include "FastBdbPhraseTable.h"
#include <signal.h>
#include <sys/wait.h>
#include <memory>
#include <iostream>

typedef std::vector<WordIndex> Phr;
typedef std::pair<Phr, Phr> PP;
static std::string str(const Phr& p) { std::string s = "["; for (auto w : p) s += std::to_string(w) + " "; if (!p.empty()) s.pop_back(); return s + "]"; }

struct Model {
  std::map<Phr, double> s, t;
  std::map<PP, double> st;
  void incr(const Phr& a, const Phr& b, double c) { s[a] += c; t[b] += c; st[{a, b}] += c; }
  void add(const Phr& a, const Phr& b, double cs, double cst) { s[a] = cs; t[b] += cst; st[{a, b}] = cst; }
};
static double get(const std::map<Phr, double>& m, const Phr& k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; }
static double get(const std::map<PP, double>& m, const PP& k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; }

static bool big;        // the case has a large table
static size_t maxlen;   // of a phrase
static double unit;     // what counts are multiples of


static bool cl(double a, double b) { return vh::close_enough(a, b, 1e-5, 1e-12); }

// full comparison of a BasePhraseTable with the model
static void compare(vh::Ctx& c, const std::string& nm, BasePhraseTable& pt, Model& m, const std::vector<Phr>& S, const std::vector<Phr>& T,
                    bool hasSrcEntries, bool frac) {
  auto K = [&](const char* what) { return nm + ":" + what; };
  (void)frac;
  for (auto& s : S) {
    bool f; double v = (double)(float)pt.getSrcInfo(s, f).get_c_s();
    if (f != (m.s.count(s) > 0)) c.fail(K("src-found"), "getSrcInfo(%s) found=%d, model %d", str(s).c_str(), f, (int)m.s.count(s));
    if (!cl(v, get(m.s, s)) || !cl((float)pt.cSrc(s), get(m.s, s))) c.fail(K("src-count"), "c(%s)=%g model %g", str(s).c_str(), v, get(m.s, s));
    c.eval();
  }
  for (auto& t : T) {
    if (!cl((float)pt.cTrg(t), get(m.t, t))) c.fail(K("trg-count"), "c(t=%s)=%g model %g", str(t).c_str(), (double)(float)pt.cTrg(t), get(m.t, t));
    c.eval();
  }
  for (auto& s : S) for (auto& t : T) {
    bool f; PP k(s, t);
    double mv = get(m.st, k), v = (float)pt.getSrcTrgInfo(s, t, f);
    bool mf = m.st.count(k) > 0;
    if (f != mf) c.fail(K("pair-found"), "getSrcTrgInfo(%s,%s) found=%d, model %d", str(s).c_str(), str(t).c_str(), f, mf);
    if (!cl(v, mv) || !cl((float)pt.cSrcTrg(s, t), mv)) c.fail(K("pair-count"), "c(%s,%s)=%g model %g", str(s).c_str(), str(t).c_str(), v, mv);
    bool f2; PhrasePairInfo i = pt.infSrcTrg(s, t, f2);
    if (f2 != mf || (mf && (!cl(i.first.get_c_s(), get(m.s, s)) || !cl(i.second.get_c_s(), mv))))
      c.fail(K("pair-info"), "infSrcTrg(%s,%s)=(%g,%g,%d)", str(s).c_str(), str(t).c_str(), (double)i.first.get_c_s(), (double)i.second.get_c_s(), f2);
    double e1 = mv > 0 && get(m.s, s) > 0 ? mv / get(m.s, s) : (double)PHRASE_PROB_SMOOTH;
    double e2 = mv > 0 && get(m.t, t) > 0 ? mv / get(m.t, t) : (double)PHRASE_PROB_SMOOTH;
    if (!cl((double)pt.pTrgGivenSrc(s, t), e1)) c.fail(K("p-t-given-s"), "p(%s|%s)=%g model %g", str(t).c_str(), str(s).c_str(), (double)pt.pTrgGivenSrc(s, t), e1);
    if (!cl((double)pt.pSrcGivenTrg(s, t), e2)) c.fail(K("p-s-given-t"), "p(%s|%s)=%g model %g", str(s).c_str(), str(t).c_str(), (double)pt.pSrcGivenTrg(s, t), e2);
    if (!vh::close_enough((double)pt.logpTrgGivenSrc(s, t), log(e1), 1e-4, 1e-4) || !vh::close_enough((double)pt.logpSrcGivenTrg(s, t), log(e2), 1e-4, 1e-4))
      c.fail(K("logp"), "log probabilities of (%s,%s) are not the logs of the probabilities", str(s).c_str(), str(t).c_str());
    c.eval();
  }
  auto nbcheck = [&](const std::string& w, NbestTableNode<PhraseTransTableNodeData>& nbt, std::map<Phr, double> want, double tot, int N) {
    size_t n = 0; double prev = INFINITY;
    std::vector<double> best;
    for (auto& p : want) best.push_back(log(p.second / tot));
    std::sort(best.rbegin(), best.rend());
    size_t expect = N >= 0 ? std::min((size_t)N, want.size()) : want.size();
    for (NbestTableNode<PhraseTransTableNodeData>::iterator it = nbt.begin(); it != nbt.end(); it++, ++n) {
      double sc = (double)it->first;
      if (sc > prev + 1e-9) c.fail(K("nbest-order"), "%s: scores increase", w.c_str());
      prev = sc;
      auto q = want.find(it->second);
      if (q == want.end()) c.fail(K("nbest-content"), "%s: unexpected or repeated phrase %s", w.c_str(), str(it->second).c_str());
      if (!vh::close_enough(sc, log(q->second / tot), 1e-4, 1e-4)) c.fail(K("nbest-score"), "%s: %s has %g, model %g", w.c_str(), str(it->second).c_str(), sc, log(q->second / tot));
      if (n >= best.size() || !vh::close_enough(sc, best[n], 1e-4, 1e-4)) c.fail(K("nbest-not-best"), "%s: rank %zu score %g", w.c_str(), n, sc);
      want.erase(q);
    }
    if (n != expect) c.fail(K("nbest-size"), "%s: %zu entries, model %zu", w.c_str(), n, expect);
  };
  for (auto& t : T) {
    std::map<Phr, double> want; bool any = false;
    for (auto& e : m.st) if (e.first.second == t) { any = true; if (e.second > 0 && get(m.s, e.first.first) > 0) want[e.first.first] = e.second; }
    BasePhraseTable::SrcTableNode node;
    bool f = pt.getEntriesForTarget(t, node);
    if (!want.empty() && !f) c.fail(K("entries-trg"), "getEntriesForTarget(%s) finds nothing, model has %zu", str(t).c_str(), want.size());
    if (!any && f) c.fail(K("entries-trg"), "getEntriesForTarget(%s) found, model has none", str(t).c_str());
    if (node.size() != want.size()) c.fail(K("entries-trg"), "getEntriesForTarget(%s): %zu entries, model %zu", str(t).c_str(), node.size(), want.size());
    for (auto& e : node) {
      if (!want.count(e.first)) c.fail(K("entries-trg"), "getEntriesForTarget(%s): %s unexpected", str(t).c_str(), str(e.first).c_str());
      if (!cl(e.second.second.get_c_s(), want[e.first]) || !cl(e.second.first.get_c_s(), get(m.s, e.first)))
        c.fail(K("entries-trg"), "getEntriesForTarget(%s): %s has (%g,%g)", str(t).c_str(), str(e.first).c_str(), (double)e.second.first.get_c_s(), (double)e.second.second.get_c_s());
    }
    if (get(m.t, t) > 0) {
      int N = (int)c.rng.range(-1, big ? 60 : 4);
      NbestTableNode<PhraseTransTableNodeData> nbt;
      bool f2 = pt.getNbestForTrg(t, nbt, N);
      if (!want.empty() && !f2) c.fail(K("nbest-trg"), "getNbestForTrg(%s) finds nothing", str(t).c_str());
      if (f2) nbcheck("getNbestForTrg(" + str(t) + "," + std::to_string(N) + ")", nbt, want, get(m.t, t), N);
    }
    c.eval();
  }
  if (hasSrcEntries) for (auto& s : S) {
    std::map<Phr, double> want; bool any = false;
    for (auto& e : m.st) if (e.first.first == s) { any = true; if (e.second > 0 && get(m.t, e.first.second) > 0) want[e.first.second] = e.second; }
    BasePhraseTable::TrgTableNode node;
    bool f = pt.getEntriesForSource(s, node);
    if (!want.empty() && !f) c.fail(K("entries-src"), "getEntriesForSource(%s) finds nothing", str(s).c_str());
    if (!any && f) c.fail(K("entries-src"), "getEntriesForSource(%s) found, model has none", str(s).c_str());
    if (node.size() != want.size()) c.fail(K("entries-src"), "getEntriesForSource(%s): %zu entries, model %zu", str(s).c_str(), node.size(), want.size());
    for (auto& e : node)
      if (!want.count(e.first) || !cl(e.second.second.get_c_s(), want[e.first]) || !cl(e.second.first.get_c_s(), get(m.t, e.first)))
        c.fail(K("entries-src"), "getEntriesForSource(%s): %s wrong", str(s).c_str(), str(e.first).c_str());
    if (get(m.s, s) > 0) {
      NbestTableNode<PhraseTransTableNodeData> nbt;
      bool f2 = pt.getNbestForSrc(s, nbt);
      if (!want.empty() && !f2) c.fail(K("nbest-src"), "getNbestForSrc(%s) finds nothing", str(s).c_str());
      if (f2) nbcheck("getNbestForSrc(" + str(s) + ")", nbt, want, get(m.s, s), -1);
    }
    c.eval();
  }
}

static void compareBdb(vh::Ctx& c, FastBdbPhraseTable& pt, Model& m, const std::vector<Phr>& S, const std::vector<Phr>& T) {
  const std::string nm = "fastbdb";
  auto K = [&](const char* what) { return nm + ":" + what; };
  for (auto& s : S) { bool f; double v = (float)pt.getSrcInfo(s, f); if (f != (m.s.count(s) > 0) || !cl(v, get(m.s, s))) c.fail(K("src-count"), "c(%s)=%g model %g", str(s).c_str(), v, get(m.s, s)); c.eval(); }
  for (auto& s : S) for (auto& t : T) {
    bool f; double v = (float)pt.getSrcTrgInfo(s, t, f), mv = get(m.st, {s, t});
    if (f != (m.st.count({s, t}) > 0) || !cl(v, mv)) c.fail(K("pair-count"), "c(%s,%s)=%g model %g", str(s).c_str(), str(t).c_str(), v, mv);
    double e1 = mv > 0 ? mv / get(m.s, s) : (double)PHRASE_PROB_SMOOTH, e2 = mv > 0 ? mv / get(m.t, t) : (double)PHRASE_PROB_SMOOTH;
    if (!cl((double)pt.pTrgGivenSrc(s, t), e1)) c.fail(K("p-t-given-s"), "p(%s|%s)=%g model %g", str(t).c_str(), str(s).c_str(), (double)pt.pTrgGivenSrc(s, t), e1);
    if (!cl((double)pt.pSrcGivenTrg(s, t), e2)) c.fail(K("p-s-given-t"), "p(%s|%s)=%g model %g", str(s).c_str(), str(t).c_str(), (double)pt.pSrcGivenTrg(s, t), e2);
    c.eval();
  }
  for (auto& t : T) {
    std::map<Phr, double> want;
    for (auto& e : m.st) if (e.first.second == t) want[e.first.first] = e.second;
    FastBdbPhraseTable::SrcTableNode node;
    bool f = pt.getEntriesForTarget(t, node);
    if (f != !want.empty() || node.size() != want.size()) c.fail(K("entries-trg"), "getEntriesForTarget(%s): %zu entries, model %zu", str(t).c_str(), node.size(), want.size());
    for (auto& e : node) if (!want.count(e.first) || !cl(e.second.second.get_c_s(), want[e.first]) || !cl(e.second.first.get_c_s(), get(m.t, t))) c.fail(K("entries-trg"), "getEntriesForTarget(%s): %s wrong", str(t).c_str(), str(e.first).c_str());
    int N = (int)c.rng.range(-1, big ? 60 : 4);
    NbestTableNode<PhraseTransTableNodeData> nbt;
    if (pt.getNbestForTrg(t, nbt, N)) {
      size_t n = 0; double prev = INFINITY; size_t expect = N >= 0 ? std::min((size_t)N, want.size()) : want.size();
      std::vector<double> best; for (auto& p : want) best.push_back(log(p.second / get(m.t, t))); std::sort(best.rbegin(), best.rend());
      for (auto it = nbt.begin(); it != nbt.end(); it++, ++n) {
        double sc = (double)it->first;
        if (sc > prev + 1e-9 || n >= best.size() || !vh::close_enough(sc, best[n], 1e-4, 1e-4) || !want.count(it->second) || !vh::close_enough(sc, log(want[it->second] / get(m.t, t)), 1e-4, 1e-4)) c.fail(K("nbest"), "getNbestForTrg(%s,%d) rank %zu", str(t).c_str(), N, n);
        prev = sc;
      }
      if (n != expect) c.fail(K("nbest"), "getNbestForTrg(%s,%d) has %zu entries, model %zu", str(t).c_str(), N, n, expect);
    } else if (!want.empty()) c.fail(K("nbest"), "getNbestForTrg(%s) finds nothing", str(t).c_str());
    c.eval();
  }
}

static void iterCheck(vh::Ctx& c, StlPhraseTable* stl, HatTriePhraseTable* hat, Model& m) {
  if (stl) {
    std::map<PP, double> got;
    size_t n = 0;
    for (StlPhraseTable::const_iterator it = stl->begin(); it != stl->end(); it++) {
      StlPhraseTable::PhraseInfoElement e = *it;
      if (got.count({e.first.first, e.first.second})) c.fail("stl:iterate", "element visited twice");
      got[{e.first.first, e.first.second}] = (double)e.second;
      if (++n > 100000) c.fail("stl:iterate", "iteration does not end");
    }
    std::map<PP, double> want = m.st;
    for (auto& x : m.s) want[{x.first, Phr()}] = x.second;
    for (auto& x : m.t) want[{Phr(), x.first}] = x.second;
    if (got != want) c.fail("stl:iterate", "iteration visits %zu elements, model has %zu (or counts differ)", got.size(), want.size());
    if (stl->size() != want.size()) c.fail("stl:size", "size()=%zu model %zu", stl->size(), want.size());
  }
  if (hat) {
    if (hat->size() != m.s.size() + m.t.size() + m.st.size()) c.fail("hattrie:size", "size()=%zu model %zu", hat->size(), m.s.size() + m.t.size() + m.st.size());
    {
      std::map<Phr, double> got;
      for (HatTriePhraseTable::const_iterator it = hat->begin(); it != hat->end(); it++) {
        HatTriePhraseTable::PhraseInfoElement e = *it;
        if (got.count(e.first)) c.fail("hattrie:iterate", "target visited twice");
        if ((float)e.second != 0) got[e.first] = (double)e.second;
      }
      std::map<Phr, double> want;
      for (auto& x : m.t) if (x.second != 0) want[x.first] = x.second;
      if (got != want) c.fail("hattrie:iterate", "iteration over targets visits %zu, model %zu", got.size(), want.size());
    }
  }
  c.eval();
}

struct Op { int k; Phr s, t; double a, b; };

static void applyModel(Model& m, const Op& o) {
  switch (o.k) {
    case 0: case 1: m.incr(o.s, o.t, o.a); break;
    case 2: m.add(o.s, o.t, o.a, o.b); break;
    case 3: m.s[o.s] = o.a; break;
    case 4: m.st[{o.s, o.t}] = o.a; break;
    case 5: m = Model(); break;
  }
}
static void applyPt(BasePhraseTable& p, const Op& o) {
  switch (o.k) {
    case 0: p.incrCountsOfEntry(o.s, o.t, Count(o.a)); break;
    case 1: p.incrCountsOfEntryLog(o.s, o.t, LogCount(log(o.a))); break;
    case 2: { PhrasePairInfo i; i.first = Count(o.a); i.second = Count(o.b); p.addTableEntry(o.s, o.t, i); break; }
    case 3: p.addSrcInfo(o.s, Count(o.a)); break;
    case 4: p.addSrcTrgInfo(o.s, o.t, Count(o.a)); break;
    case 5: p.clear(); break;
  }
}

static void makePhrases(vh::Ctx& c, std::vector<Phr>& S, std::vector<Phr>& T) {
  big = c.rng.chance(0.03); unit = 1;
  maxlen = !big ? 5 : c.mode == "bdb" ? 10 : 20;      // what a Berkeley DB key holds
  if (big) c.count("large_tables");
  static const WordIndex special[] = {0, 1, 3, 4, 5, 252, 253, 254, 255, 256, 507, 508, 509, 761, 762, 64515, 64516, 64517, 65535, 65536, 65537, 64516 * 2, 64516 * 254 - 1, 16387063, 1000003};
  std::vector<WordIndex> alpha;
  int na = c.rng.range(2, 6);
  for (int i = 0; i < na; ++i) alpha.push_back(c.rng.chance(0.6) ? (WordIndex)c.rng.range(3, 9) : special[c.rng.below(sizeof special / sizeof *special)]);
  auto mk = [&](std::vector<Phr>& V, int n) {
    std::set<Phr> seen;
    for (int i = 0; i < n; ++i) {
      Phr p;
      if (!V.empty() && c.rng.chance(0.4)) { p = V[c.rng.below(V.size())]; if (p.size() < maxlen) p.push_back(alpha[c.rng.below(alpha.size())]); }  // shares a prefix
      else { int l = c.rng.range(1, big ? maxlen : 4); for (int j = 0; j < l; ++j) p.push_back(alpha[c.rng.below(alpha.size())]); }
      if (seen.insert(p).second) V.push_back(p);
    }
  };
  mk(S, big ? c.rng.range(2, 50) : c.rng.range(2, 6));
  mk(T, big ? c.rng.range(2, 50) : c.rng.range(2, 6));
  if (T.size() < 2) T.push_back(Phr(3, alpha[0]));
}

// random operation on a pool; the first nS-1/nT-1 phrases are ever inserted, the last one never is
static Op genOp(vh::Ctx& c, const std::vector<Phr>& S, const std::vector<Phr>& T, const Model& m, bool frac) {
  Op o;
  o.s = S[c.rng.below(S.size() - 1)]; o.t = T[c.rng.below(T.size() - 1)];
  auto num = [&]() { return frac ? unit * c.rng.range(1, 24) / 8.0 : (double)c.rng.range(1, 9); };
  o.a = num(); o.b = num();
  int r = c.rng.below(100);
  if (r < 55) o.k = 0;
  else if (r < 60) { o.k = 1; o.a = 1; }
  else if (r < 78) {
    o.k = 2; if (o.b > o.a) std::swap(o.a, o.b);
  }
  else if (r < 86) o.k = 3;
  else if (r < 98) { o.k = m.s.count(o.s) && m.t.count(o.t) ? 4 : 0; }
  else o.k = 5;
  return o;
}

static void oneMem(vh::Ctx& c) {
  std::vector<Phr> S, T; makePhrases(c, S, T);
  bool frac = c.rng.chance(0.4);
  StlPhraseTable stl; HatTriePhraseTable hat; Model m;
  if (frac && c.rng.chance(0.2)) unit = c.rng.chance(.5) ? 1e6 : 1. / 1024;
  int n = c.rng.range(1, big ? 600 : c.thorough ? 120 : 50);
  if (c.rng.chance(0.3)) { compare(c, "stl", stl, m, S, T, true, frac); compare(c, "hattrie", hat, m, S, T, true, frac); }
  std::string d;
  for (int i = 0; i < n; ++i) {
    Op o = genOp(c, S, T, m, frac);
    c.note("op %d s=%s t=%s %g %g", o.k, str(o.s).c_str(), str(o.t).c_str(), o.a, o.b);
    d += std::to_string(o.k) + str(o.s) + str(o.t);
    applyModel(m, o); applyPt(stl, o); applyPt(hat, o);
    c.count("table_operations", 2);
    if (c.rng.chance(big ? 0.01 : 0.12) || i == n - 1) { compare(c, "stl", stl, m, S, T, true, frac); compare(c, "hattrie", hat, m, S, T, true, frac); if (!frac) iterCheck(c, &stl, &hat, m); c.count("full_comparisons", 2); }
  }
  c.maxi("pairs", m.st.size());
  if (m.st.size() > 1) c.distinct(d);
  if (c.idx < 2) c.sample(c.caselog);
}

static void oneLdb(vh::Ctx& c) {
  std::vector<Phr> S, T; makePhrases(c, S, T);
  std::string dir = c.scratch + "/ldb";
  vh::wipe(dir);
  Model m;
  bool frac = c.rng.chance(0.4);
  std::unique_ptr<LevelDbPhraseTable> p(new LevelDbPhraseTable);
  if (p->init(dir) != THOT_OK) c.fail("leveldb:init", "init failed");
  int n = c.rng.range(1, big ? 300 : 30);
  std::string d;
  for (int i = 0; i < n; ++i) {
    if (c.rng.chance(big ? 0.01 : 0.12)) {           // close and open again
      p.reset(); p.reset(new LevelDbPhraseTable);
      if (p->load(dir) != THOT_OK) c.fail("leveldb:reopen", "load failed");
      c.note("reopen"); c.count("reopens"); d += "R";
      compare(c, "leveldb", *p, m, S, T, false, frac);
      continue;
    }
    if (c.rng.chance(0.05)) {           // killed between two operations: all acknowledged ones must be there
      p.reset();
      int fd[2]; if (pipe(fd)) c.fail("harness", "pipe");
      std::vector<Op> ops; Model mm = m;
      int k = c.rng.range(1, 12), stop = c.rng.range(0, k);
      for (int j = 0; j < k; ++j) { Op o = genOp(c, S, T, mm, frac); if (o.k == 5) o.k = 0; ops.push_back(o); applyModel(mm, o); }
      fflush(0);
      pid_t pid = fork();
      if (pid == 0) {
        LevelDbPhraseTable q;
        if (q.load(dir) != THOT_OK) _exit(3);
        for (int j = 0; j < stop; ++j) { applyPt(q, ops[j]); char b = 1; if (write(fd[1], &b, 1) != 1) _exit(4); }
        kill(getpid(), SIGKILL);
      }
      close(fd[1]);
      int st; waitpid(pid, &st, 0);
      int acked = 0; char b; while (read(fd[0], &b, 1) == 1) acked++;
      close(fd[0]);
      if (!WIFSIGNALED(st) || acked != stop) c.fail("leveldb:child", "child writer ended with status %d after %d of %d operations", st, acked, stop);
      for (int j = 0; j < stop; ++j) { applyModel(m, ops[j]); c.note("killed-child op %d s=%s t=%s %g %g", ops[j].k, str(ops[j].s).c_str(), str(ops[j].t).c_str(), ops[j].a, ops[j].b); }
      p.reset(new LevelDbPhraseTable);
      if (p->load(dir) != THOT_OK) c.fail("leveldb:recover", "load after a kill failed");
      compare(c, "leveldb-after-kill", *p, m, S, T, false, frac);
      c.count("kill_points"); d += "K";
      continue;
    }
    Op o = genOp(c, S, T, m, frac);
    c.note("op %d s=%s t=%s %g %g", o.k, str(o.s).c_str(), str(o.t).c_str(), o.a, o.b);
    d += std::to_string(o.k) + str(o.s) + str(o.t);
    applyModel(m, o); applyPt(*p, o);
    c.count("table_operations");
    if (c.rng.chance(big ? 0.01 : 0.1) || i == n - 1) {
      compare(c, "leveldb", *p, m, S, T, false, frac);
      if (p->size() != m.s.size() + m.t.size() + m.st.size()) c.fail("leveldb:size", "size()=%zu model %zu", p->size(), m.s.size() + m.t.size() + m.st.size());
      c.count("full_comparisons");
    }
  }
  if (m.st.size() > 1) c.distinct(d);
  p.reset();
  vh::wipe(dir);
}

static void oneBdb(vh::Ctx& c) {
  std::vector<Phr> S, T; makePhrases(c, S, T);
  std::string bd = c.scratch + "/bdbdir", f = bd + "/b";
  vh::wipe(bd); mkdir(bd.c_str(), 0755);
  Model m;
  std::unique_ptr<FastBdbPhraseTable> p(new FastBdbPhraseTable);
  if (p->init(f.c_str()) != THOT_OK) c.fail("fastbdb:init", "init failed");
  int n = c.rng.range(1, big ? 300 : 30);
  std::string d;
  for (int i = 0; i < n; ++i) {
    if (c.rng.chance(big ? 0.01 : 0.1)) { p->enableFastSearch(); c.note("enableFastSearch"); compareBdb(c, *p, m, S, T); d += "F"; continue; }
    if (c.rng.chance(big ? 0.01 : 0.1)) { p.reset(); p.reset(new FastBdbPhraseTable); if (p->init(f.c_str()) != THOT_OK) c.fail("fastbdb:reopen", "init failed"); c.note("reopen"); c.count("reopens"); d += "R"; compareBdb(c, *p, m, S, T); continue; }
    Op o = genOp(c, S, T, m, c.rng.chance(0.3)); o.k = 0;
    c.note("incr s=%s t=%s %g", str(o.s).c_str(), str(o.t).c_str(), o.a);
    d += str(o.s) + str(o.t);
    applyModel(m, o); p->incrCountsOfEntry(o.s, o.t, Count(o.a));
    c.count("table_operations");
    if (c.rng.chance(big ? 0.01 : 0.1) || i == n - 1) { compareBdb(c, *p, m, S, T); c.count("full_comparisons"); }
  }
  if (m.st.size() > 1) c.distinct(d);
  p.reset();
  vh::wipe(bd);
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Ctx& c) {
    if (c.mode == "ldb") oneLdb(c);
    else if (c.mode == "bdb") oneBdb(c);
    else oneMem(c);
  });
}
