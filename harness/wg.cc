// LINK: shared
// Word graphs: the algorithms on them against path enumeration, and the graphs the decoder
// builds against the definition of its score.
#include "dechost.h"
#include <cmath>
#include <sys/wait.h>

typedef std::vector<WordGraphArcId> Path;
static bool eq(double a, double b, double rel = 1e-9) { return fabs(a - b) <= rel * (1 + std::max(fabs(a), fabs(b))); }

// the graph as data, read through its public functions
struct Gr {
  std::vector<WordGraphArc> a;
  std::vector<char> pruned;
  std::vector<std::vector<double>> sc;      // components where the generator knows them
  std::set<unsigned> fin;
  double init = 0;
  unsigned n = 0;
  std::vector<std::vector<unsigned>> out;
  void index() { out.assign(n, {}); for (unsigned i = 0; i < a.size(); ++i) if (!pruned[i]) out[a[i].predStateIndex].push_back(i); }
  static Gr of(WordGraph& g) {
    Gr r;
    r.n = g.numStates();
    for (WordGraphArcId i = 0; i < g.numArcs(); ++i) { r.a.push_back(g.wordGraphArcId2WordGraphArc(i)); r.pruned.push_back(g.arcPruned(i)); }
    for (auto f : g.getFinalStateSet()) r.fin.insert(f);
    r.init = g.getInitialStateScore();
    r.index();
    return r;
  }
  double score(unsigned i) const { return a[i].arcScore; }
  // best score from s to a final state, over arcs that are not excluded
  std::vector<double> memo; std::vector<char> done;
  double best(unsigned s, const std::set<WordGraphArcId>& ex, const std::function<double(unsigned)>& f) {
    if (memo.empty()) { memo.assign(n, -INFINITY); done.assign(n, 0); }
    if (done[s]) return memo[s];
    done[s] = 1;
    double b = fin.count(s) ? 0 : -INFINITY;
    for (unsigned i : out[s]) if (!ex.count(i)) b = std::max(b, f(i) + best(a[i].succStateIndex, ex, f));
    return memo[s] = b;
  }
  double best(unsigned s, const std::set<WordGraphArcId>& ex = {}) { memo.clear(); if (s >= n) return -INFINITY; return best(s, ex, [this](unsigned i) { return score(i); }); }
  // best score from 0 to s, without the initial score
  std::vector<double> fm; std::vector<char> fd; std::vector<std::vector<unsigned>> in;
  double fwd(unsigned s) {
    if (fm.empty()) { fm.assign(n, -INFINITY); fd.assign(n, 0); in.assign(n, {}); for (unsigned i = 0; i < a.size(); ++i) if (!pruned[i]) in[a[i].succStateIndex].push_back(i); }
    if (fd[s]) return fm[s];
    fd[s] = 1;
    double b = s == 0 ? 0 : -INFINITY;
    for (unsigned i : in[s]) b = std::max(b, score(i) + fwd(a[i].predStateIndex));
    return fm[s] = b;
  }
  // all paths from 0 that end in a final state (not going on from one)
  std::vector<char> live;
  void paths(std::vector<Path>& r, size_t cap) { Path p; if (n) { best(0); live.assign(n, 0); for (unsigned s = 0; s < n; ++s) live[s] = done[s] && !std::isinf(memo[s]); rec(0, p, r, cap); } }
  void rec(unsigned s, Path& p, std::vector<Path>& r, size_t cap) {
    if (r.size() > cap) return;
    if (fin.count(s) && !p.empty()) { r.push_back(p); return; }
    for (unsigned i : out[s]) if (live[a[i].succStateIndex]) { p.push_back(i); rec(a[i].succStateIndex, p, r, cap); p.pop_back(); }
  }
  // the K best scores of paths from s, and a fingerprint of the bag of paths (of their arcs as printed by f) with their number; graphs too large to list
  std::map<unsigned, std::vector<double>> kmemo;
  const std::vector<double>& kbest(unsigned s, size_t K) {
    auto it = kmemo.find(s); if (it != kmemo.end()) return it->second;
    std::vector<double> v; if (fin.count(s)) v.push_back(0);
    else for (unsigned i : out[s]) for (double x : kbest(a[i].succStateIndex, K)) v.push_back(x + score(i));
    std::sort(v.rbegin(), v.rend()); if (v.size() > K) v.resize(K);
    return kmemo[s] = v;
  }
  typedef std::pair<uint64_t, uint64_t> Fp;
  Fp finger(const std::function<std::string(unsigned)>& f) {
    std::map<unsigned, Fp> m;
    std::function<Fp(unsigned)> go = [&](unsigned s) -> Fp {
      auto it = m.find(s); if (it != m.end()) return it->second;
      Fp r{0, 0};
      if (fin.count(s)) r = {0x9E3779B97F4A7C15ULL, 1};
      else for (unsigned i : out[s]) { Fp x = go(a[i].succStateIndex); uint64_t h = Ctx::fnv(f(i)) * 0xBF58476D1CE4E5B9ULL; h ^= h >> 31; r.first += (h | 1) * x.first + (h * 0x94D049BB133111EBULL) * x.second; r.second += x.second; }
      return m[s] = r;
    };
    return n ? go(0) : Fp{0, 0};
  }
  std::string arc(unsigned i, int digits) const { char b[60]; std::string o = S(a[i].words); snprintf(b, 60, " %.*g]", digits, (double)a[i].arcScore); o += b; if (i < sc.size()) for (double x : sc[i]) { snprintf(b, 60, " %.*g", digits, x); o += b; } return o; }
  double sum(const Path& p) const { double x = init; for (auto i : p) x += score(i); return x; }
  VS words(const Path& p) const { VS v; for (auto i : p) for (auto& w : a[i].words) v.push_back(w); return v; }
  std::string show() const {
    std::string o = "init " + std::to_string(init) + " final"; for (auto f : fin) o += " " + std::to_string(f);
    for (unsigned i = 0; i < a.size(); ++i) { char b[80]; snprintf(b, 80, "; %u: %u->%u %.17g%s", i, a[i].predStateIndex, a[i].succStateIndex, (double)a[i].arcScore, pruned[i] ? " pruned" : ""); o += b; o += " [" + S(a[i].words) + "]"; if (i < sc.size()) for (double x : sc[i]) { snprintf(b, 80, " %.6g", x); o += b; } }
    return o;
  }
};

static double pathsum(const std::vector<WordGraphArc>& v) { double x = 0; for (auto& a : v) x += a.arcScore; return x; }
static bool same(const WordGraphArc& a, const WordGraphArc& b) { return a.predStateIndex == b.predStateIndex && a.succStateIndex == b.succStateIndex && a.words == b.words && eq(a.arcScore, b.arcScore, 1e-12); }

// a path of the graph from s to a final state, last arc first
static void check_path(Ctx& c, Gr& g, unsigned s, const std::set<WordGraphArcId>& ex, const std::vector<WordGraphArc>& rv, const char* what) {
  unsigned at = s;
  for (size_t k = rv.size(); k-- > 0;) {
    if (rv[k].predStateIndex != at) c.fail(std::string(what) + ":path", "arc %u->%u does not continue from %u", rv[k].predStateIndex, rv[k].succStateIndex, at);
    bool ok = false;
    for (unsigned i : g.out[at]) if (!ex.count(i) && same(g.a[i], rv[k])) ok = true;
    if (!ok) c.fail(std::string(what) + ":arc", "the path uses %u->%u, which is no usable arc", rv[k].predStateIndex, rv[k].succStateIndex);
    at = rv[k].succStateIndex;
  }
  if (!g.fin.count(at)) c.fail(std::string(what) + ":final", "the path ends in %u, which is not final", at);
}

static void best_paths(Ctx& c, WordGraph& wg, Gr& g, const std::vector<float>* alt, const char* what) {
  for (int k = 0; k < 4; ++k) {
    unsigned s = k == 0 || c.rng.chance(.4) ? 0 : c.rng.below(g.n);
    std::set<WordGraphArcId> ex;
    if (k > 0 && c.rng.chance(.7)) for (unsigned i = 0; i < g.a.size(); ++i) if (c.rng.chance(.25)) ex.insert(i);
    if (alt && g.sc.size() == g.a.size() && c.rng.chance(.5)) {
      g.memo.clear();
      double e = g.best(s, ex, [&](unsigned i) { double x = 0; for (size_t j = 0; j < alt->size(); ++j) x += (*alt)[j] * g.sc[i][j]; return x; });
      std::vector<WordGraphArc> v; double r;
      { Mute m; r = wg.bestPathFromFinalStateToIdxWeights(s, ex, *alt, v); }
      if (s == 0) e += g.init;
      if (std::isinf(e)) { if (r > SMALL_SCORE) c.fail(std::string(what) + ":altbest:none", "score %.9g although no final state can be reached from %u", r, s); }
      else { if (!eq(r, e, 1e-6)) c.fail(std::string(what) + ":altbest", "best path from %u with other weights scores %.12g, by enumeration %.12g", s, r, e); check_path(c, g, s, ex, v, what); }
      c.count("best_paths_other_weights");
      continue;
    }
    double e = g.best(s, ex) + (s == 0 ? g.init : 0);
    std::vector<WordGraphArc> v; double r;
    { Mute m; r = wg.bestPathFromFinalStateToIdx(s, ex, v); }
    if (std::isinf(e)) {
      if (r > SMALL_SCORE || !v.empty()) c.fail(std::string(what) + ":best:none", "score %.9g and %zu arcs although no final state can be reached from %u", r, v.size(), s);
      c.count("best_paths_none");
    } else {
      if (!eq(r, e)) c.fail(std::string(what) + ":best", "best path from %u scores %.12g, by enumeration %.12g", s, r, e);
      check_path(c, g, s, ex, v, what);
      double sum = pathsum(v) + (s == 0 ? g.init : 0);
      if (!eq(sum, r)) c.fail(std::string(what) + ":best:sum", "the arcs of the best path sum to %.12g, its score is %.12g", sum, r);
      c.count("best_paths");
    }
  }
}

static void nbest(Ctx& c, WordGraph& wg, Gr& g, const char* what, size_t cap = 4000) {
  for (unsigned f : g.fin) if (f < g.n && !g.out[f].empty()) return;
  if (g.fin.count(0)) return;
  std::vector<Path> all; g.paths(all, cap);
  bool whole = all.size() <= cap;
  std::vector<double> sc; for (auto& p : all) sc.push_back(g.sum(p));
  std::sort(sc.rbegin(), sc.rend());
  if (!whole) { g.kmemo.clear(); sc = g.kbest(0, 50); for (auto& x : sc) x += g.init; c.count("nbest_of_large_graphs"); }
  static const int L[] = {1, 2, 5, 20};
  for (int t = 0; t < 2; ++t) {
    unsigned len = t == 0 ? L[c.rng.below(4)] : whole ? all.size() + 3 : 50;
    std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> sv;
    { Mute m; wg.obtainNbestList(len, nb, hl, sv); }
    if (nb.size() != hl.size()) c.fail(std::string(what) + ":nbest:shape", "%zu translations, %zu hypotheses", nb.size(), hl.size());
    if (nb.size() != std::min<size_t>(len, all.size())) c.fail(std::string(what) + ":nbest:size", "%zu of %zu paths for a list of %u", nb.size(), all.size(), len);
    std::map<std::string, int> seen;
    for (size_t i = 0; i < nb.size(); ++i) {
      if (!eq(nb[i].first, sc[i])) c.fail(std::string(what) + ":nbest:score", "entry %zu scores %.12g, the %zu-th best path %.12g: %s", i, nb[i].first, i, sc[i], g.show().c_str());
      if (i && nb[i].first > nb[i - 1].first + 1e-9 * (1 + fabs(nb[i].first))) c.fail(std::string(what) + ":nbest:order", "entry %zu scores %.12g after %.12g", i, nb[i].first, nb[i - 1].first);
      std::vector<WordGraphArc> rv(hl[i].begin(), hl[i].end());
      std::string key; for (auto& a : rv) { char b[80]; snprintf(b, 80, "%u-%u %.15g ", a.predStateIndex, a.succStateIndex, (double)a.arcScore); key += b + S(a.words) + "|"; }
      int mult = ++seen[key];
      // parallel identical arcs make identical paths
      size_t can = 1; for (auto& a : rv) { size_t k = 0; for (unsigned j : g.out[a.predStateIndex]) if (same(g.a[j], a)) k++; can *= std::max<size_t>(k, 1); }
      if ((size_t)mult > can) c.fail(std::string(what) + ":nbest:dup", "entry %zu repeats a path", i);
      double x = g.init; VS w; for (auto& a : rv) { x += a.arcScore; for (auto& q : a.words) w.push_back(q); }
      if (!eq(x, nb[i].first)) c.fail(std::string(what) + ":nbest:sum", "entry %zu scores %.12g, its arcs %.12g", i, nb[i].first, x);
      if (W(nb[i].second) != w) c.fail(std::string(what) + ":nbest:text", "entry %zu is '%s', its arcs '%s'", i, nb[i].second.c_str(), S(w).c_str());
      std::reverse(rv.begin(), rv.end());
      check_path(c, g, 0, {}, rv, what);
    }
    if (g.sc.size() == g.a.size() && !g.a.empty() && !g.sc[0].empty()) {
      if (sv.size() != nb.size()) c.fail(std::string(what) + ":nbest:comps", "%zu component vectors for %zu entries", sv.size(), nb.size());
      if (whole && t == 1) {     // components of the whole list, as a multiset
        std::multiset<std::string> x, y;
        auto key = [](const VS& w, const std::vector<double>& v) { std::string o = S(w); char b[40]; for (double d : v) { snprintf(b, 40, " %.5f", d + 1e-9); o += b; } return o; };
        for (auto& p : all) { std::vector<double> v(g.sc[0].size(), 0); for (auto i : p) for (size_t j = 0; j < v.size(); ++j) v[j] += g.sc[i][j]; x.insert(key(g.words(p), v)); }
        for (size_t i = 0; i < nb.size(); ++i) { std::vector<double> v(sv[i].begin(), sv[i].end()); y.insert(key(W(nb[i].second), v)); }
        if (x != y) c.fail(std::string(what) + ":nbest:comps", "the components of the n-best list are not those of the paths (%s ...)", y.empty() ? "" : y.begin()->c_str());
      }
    }
    c.count("nbest_lists"); c.count("nbest_entries", nb.size());
    c.maxi("max_paths", all.size());
  }
}

// which arcs a threshold keeps; g is the graph with nothing pruned
static void prune(Ctx& c, WordGraph& wg, Gr g, double thr, const char* what) {
  std::fill(g.pruned.begin(), g.pruned.end(), 0); g.index();
  double best = g.best(0);
  if (std::isinf(best)) return;
  for (int k = 0; k < 2 && c.rng.chance(.4); ++k) {   // whatever it was pruned with before
    static const double B[] = {1, .5, .1, .01, 1e-4, .9};
    double b4 = B[c.rng.below(6)];
    c.note("first pruned with %g", b4);
    Mute m; wg.prune(b4); c.count("pruned_again");
  }
  unsigned np; { Mute m; np = wg.prune(thr); }
  unsigned k = 0;
  double lim = best + (thr == 0 ? (double)SMALL_SCORE : log(thr));
  bool any = false;
  for (unsigned i = 0; i < g.a.size(); ++i) {
    if (wg.arcPruned(i)) k++;
    g.memo.clear();
    double b = g.fwd(g.a[i].predStateIndex) + g.score(i) + g.best(g.a[i].succStateIndex);
    bool near = fabs(b - lim) < 1e-5 * (1 + fabs(lim));
    if (std::isinf(b)) continue;       // on no path: kept or not, it makes no difference
    if (near && !(thr == 1 && fabs(b - best) == 0)) { if (fabs(b - best) > 1e-9) continue; }
    bool keep = b >= lim || fabs(b - best) < 1e-9 * (1 + fabs(best));
    if (keep == wg.arcPruned(i)) c.fail(std::string(what) + ":prune", "threshold %.9g (limit %.12g, best path %.12g): arc %u, whose best path scores %.12g, is %s", thr, lim, best, i, b, wg.arcPruned(i) ? "pruned" : "kept");
    any = true;
    c.count(wg.arcPruned(i) ? "arcs_pruned" : "arcs_kept");
  }
  (void)any;
  if (k != np) c.fail(std::string(what) + ":prune:count", "%u arcs reported pruned, %u are", np, k);
  if (wg.getNumberOfNonPrunedArcs() + np != wg.getNumberOfPrunedAndNonPrunedArcs()) c.fail(std::string(what) + ":prune:count", "%u of %u not pruned with %u pruned", wg.getNumberOfNonPrunedArcs(), wg.getNumberOfPrunedAndNonPrunedArcs(), np);
  std::vector<WordGraphArc> v; double r;
  { Mute m; r = wg.bestPathFromFinalStateToIdx(0, {}, v); }
  if (!eq(r, best + g.init)) c.fail(std::string(what) + ":prune:best", "the best path scores %.12g after pruning with %.9g, %.12g before", r, thr, best + g.init);
  c.count("prunings");
}

static std::multiset<std::string> pathset(Gr& g, size_t cap, bool& whole, int digits) {
  std::vector<Path> all; g.paths(all, cap);
  whole = all.size() <= cap;
  std::multiset<std::string> r;
  char b[60];
  for (auto& p : all) { std::string o; for (auto i : p) { o += "["; o += S(g.a[i].words); snprintf(b, 60, " %.*g]", digits, (double)g.a[i].arcScore); o += b; if (i < g.sc.size()) for (double x : g.sc[i]) { snprintf(b, 60, " %.*g", digits, x); o += b; } } r.insert(o); }
  return r;
}

// the components of the arcs, read back from a printed graph in the order of the arcs
static std::vector<std::vector<double>> printed_comps(WordGraph& wg) {
  std::ostringstream o; o.precision(17); { Mute m; wg.print(o); }
  std::vector<std::vector<double>> r;
  std::istringstream i(o.str()); std::string l; int k = 0;
  bool hdr = o.str().substr(0, 1) == "#";
  while (std::getline(i, l)) {
    if (k++ < 1 + hdr) continue;
    VS f = W(l); std::vector<double> v;
    if (f.size() > 3 && f[3] == "|||") for (size_t j = 4; j < f.size() && f[j] != "|||"; ++j) v.push_back(atof(f[j].c_str()));
    r.push_back(v);
  }
  return r;
}

static void useful(Ctx& c, WordGraph& wg, Gr& g, const char* what) {
  if (g.a.empty()) return;
  for (unsigned f : g.fin) if (f < g.n && !g.out[f].empty()) return;
  WordGraph u = wg;
  { Mute m; u.obtainWgComposedOfUsefulStates(); }
  Gr h = Gr::of(u);
  if (g.sc.size()) h.sc = printed_comps(u);
  bool w1, w2;
  auto a = pathset(g, 3000, w1, 9), b = pathset(h, 3000, w2, 9);
  if (w1 && w2 && a != b) c.fail(std::string(what) + ":useful", "%zu paths before, %zu after keeping the useful states; now %s", a.size(), b.size(), h.show().c_str());
  if (!w1 || !w2) {
    auto x = g.finger([&](unsigned i) { return g.arc(i, 9); }), y = h.finger([&](unsigned i) { return h.arc(i, 9); });
    if (x != y) c.fail(std::string(what) + ":useful", "%llu paths before (modulo 2^64), %llu after keeping the useful states; they differ", (unsigned long long)x.second, (unsigned long long)y.second);
    c.count("large_graphs_compared");
  }
  if (!h.a.empty() && a.size()) {
    for (unsigned s = 0; s < h.n; ++s) {
      bool ok = !std::isinf(h.fwd(s)) && !std::isinf(h.best(s));
      if (!ok) c.fail(std::string(what) + ":useful:state", "state %u of the result is on no path; now %s", s, h.show().c_str());
    }
  }
  best_paths(c, u, h, nullptr, "useful");
  c.count("useful_graphs");
}

static void roundtrip(Ctx& c, WordGraph& wg, Gr& g, const char* what, bool onlyuseful) {
  std::string f = c.scratch + "/rt.wg";
  { Mute m; if (wg.print(f.c_str(), onlyuseful) == THOT_ERROR) c.fail("print", "print failed"); }
  WordGraph r; bool ok;
  { Mute m; ok = r.load(f.c_str()) != THOT_ERROR; }
  if (!ok) c.fail(std::string(what) + ":load", "the printed graph does not load");
  std::vector<std::pair<std::string, float>> w1, w2; wg.getCompWeights(w1); r.getCompWeights(w2);
  if (w1.size() != w2.size()) c.fail(std::string(what) + ":load:weights", "%zu weights, %zu after loading", w1.size(), w2.size());
  for (size_t i = 0; i < w1.size(); ++i) if (w1[i].first != w2[i].first || !close_enough(w1[i].second, w2[i].second, 1e-5)) c.fail(std::string(what) + ":load:weights", "weight %zu", i);
  Gr h = Gr::of(r);
  auto pc = printed_comps(r);
  // the arcs that were kept, in order
  std::vector<unsigned> kept;
  for (unsigned i = 0; i < g.a.size(); ++i) if (!g.pruned[i]) kept.push_back(i);
  if (!onlyuseful) {
    if (h.a.size() != kept.size()) c.fail(std::string(what) + ":load:arcs", "%zu arcs, %zu after loading", kept.size(), h.a.size());
    for (size_t k = 0; k < kept.size(); ++k) {
      auto& x = g.a[kept[k]]; auto& y = h.a[k];
      if (x.predStateIndex != y.predStateIndex || x.succStateIndex != y.succStateIndex || x.words != y.words || !close_enough(x.arcScore, y.arcScore, 1e-5, 1e-9)) c.fail(std::string(what) + ":load:arc", "arc %u->%u [%s] %.9g was read as %u->%u [%s] %.9g", x.predStateIndex, x.succStateIndex, S(x.words).c_str(), (double)x.arcScore, y.predStateIndex, y.succStateIndex, S(y.words).c_str(), (double)y.arcScore);
      if (kept[k] < g.sc.size()) {
        if (g.sc[kept[k]].size() != pc[k].size()) c.fail(std::string(what) + ":load:comps", "arc %zu: %zu components, %zu after loading", k, g.sc[kept[k]].size(), pc[k].size());
        for (size_t j = 0; j < pc[k].size(); ++j) if (!close_enough(g.sc[kept[k]][j], pc[k][j], 1e-5, 1e-9)) c.fail(std::string(what) + ":load:comps", "arc %zu component %zu is %.9g, %.9g after loading", k, j, g.sc[kept[k]][j], pc[k][j]);
      }
    }
  }
  double a = g.best(0), b = h.n ? h.best(0) : -INFINITY;
  if (std::isinf(a) != std::isinf(b) || (!std::isinf(a) && !close_enough(a, b, 1e-4, 1e-4 * g.n))) c.fail(std::string(what) + ":load:best", "the best path scores %.9g, %.9g in the graph read back (only useful states: %d)", a, b, onlyuseful);
  bool q1, q2;
  for (unsigned x : g.fin) if (x < g.n && !g.out[x].empty()) return;
  std::vector<Path> p1, p2; g.paths(p1, 3000); h.paths(p2, 3000); q1 = p1.size() <= 3000; q2 = p2.size() <= 3000;
  if (!q1 || !q2) { auto x = g.finger([&](unsigned i) { return S(g.a[i].words); }), y = h.finger([&](unsigned i) { return S(h.a[i].words); }); if (x != y) c.fail(std::string(what) + ":load:paths", "%llu paths (modulo 2^64), %llu in the graph read back (only useful states: %d), or other words", (unsigned long long)x.second, (unsigned long long)y.second, onlyuseful); }
  if (q1 && q2 && p1.size() != p2.size()) c.fail(std::string(what) + ":load:paths", "%zu paths, %zu in the graph read back (only useful states: %d)", p1.size(), p2.size(), onlyuseful);
  c.count("round_trips");
}

static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

static int tool(const std::string& cmd) { return system(cmd.c_str()); }

// the command line tool on the graph printed in a file
static void wgproc(Ctx& c, WordGraph& wg, Gr& g, const std::string& what) {
  for (unsigned x : g.fin) if (x < g.n && !g.out[x].empty()) return;
  if (g.fin.count(0)) return;
  std::string f = c.scratch + "/t.wg", o = c.scratch + "/t";
  { Mute m; wg.print(f.c_str()); }
  Gr r; { WordGraph l; { Mute m; l.load(f.c_str()); } r = Gr::of(l); r.sc = printed_comps(l); }
  if (r.a.empty()) return;
  for (const char* s : {".wgp", ".bp", ".nbl", ".nbl_pruned", ".wg_arcs_top_order", ".wg_useful", ".wg_useful_pruned"}) unlink((o + s).c_str());
  bool pr = c.rng.chance(.5); static const double TH[] = {.001, .1, .5, .9, 1};
  double thr = TH[c.rng.below(5)];
  int n = c.rng.range(1, 30);
  std::string cmd = std::string(getenv("VERIF_PREFIX")) + "/bin/thot_wg_proc -w " + f + " -o " + o + " -bp 0 -n " + std::to_string(n) + " -u -t";
  if (pr) cmd += " -wgp " + std::to_string(thr);
  int rc = tool(cmd + " >/dev/null 2>" + o + ".err");
  if (rc != 0) c.fail(what + ":tool:rc", "thot_wg_proc ended with %d: %s", rc, slurp(o + ".err").substr(0, 1500).c_str());
  // best path
  double b = r.best(0);
  { std::istringstream i(slurp(o + ".bp")); std::string l, sc; while (std::getline(i, l)) if (l.substr(0, 7) == "Score: ") sc = l.substr(7);
    if (std::isinf(b)) { if (atof(sc.c_str()) > SMALL_SCORE * .9) c.fail(what + ":tool:bp", "-bp reports %s, there is no path", sc.c_str()); }
    else if (!close_enough(atof(sc.c_str()), b, 1e-4, 1e-4)) c.fail(what + ":tool:bp", "-bp reports %s, the best path scores %.9g", sc.c_str(), b); }
  if (pr) { WordGraph p; { Mute m; p.load(f.c_str()); p.prune(thr); } Gr q = Gr::of(p); r.pruned = q.pruned; r.index(); }
  std::vector<Path> all; r.paths(all, 4000);
  if (all.size() <= 4000) {
    std::vector<double> sc; for (auto& p : all) sc.push_back(r.sum(p) - r.init);
    std::sort(sc.rbegin(), sc.rend());
    std::istringstream i(slurp(o + (pr ? ".nbl_pruned" : ".nbl"))); std::string l; size_t k = 0;
    while (std::getline(i, l)) {
      if (l.substr(0, 1) == "#") continue;
      if (k >= sc.size() || k >= (size_t)n) c.fail(what + ":tool:nbest", "more entries than asked for, or than paths (%zu)", sc.size());
      if (!close_enough(atof(l.c_str()), sc[k], 1e-4, 1e-4)) c.fail(what + ":tool:nbest", "entry %zu is '%s', the path scores %.9g", k, l.c_str(), sc[k]);
      k++;
    }
    if (k != std::min<size_t>(n, all.size())) c.fail(what + ":tool:nbest", "%zu entries of %zu paths for -n %d: %s", k, all.size(), n, cmd.c_str());
    WordGraph u; { Mute m; u.load((o + (pr ? ".wg_useful_pruned" : ".wg_useful")).c_str()); }
    Gr h = Gr::of(u); h.sc = printed_comps(u);
    bool w1, w2; auto x = pathset(r, 4000, w1, 5), y = pathset(h, 4000, w2, 5);
    if (x.size() != y.size()) c.fail(what + ":tool:useful", "%zu paths, %zu with -u", x.size(), y.size());
  }
  c.count("tool_runs");
}

static void graph(Ctx& c) {
  Gr g;
  int shape = c.rng.below(10);
  g.n = c.rng.range(2, shape < 7 ? 7 : 4);
  int m = c.rng.range(1, shape == 9 ? 24 : 12);
  bool big = c.rng.chance(.02);
  if (big) { g.n = c.rng.range(8, 150); m = c.rng.range(g.n, 3 * g.n); c.count("large_graphs"); }
  bool comps = c.rng.chance(.6), neg = c.rng.chance(.8), ties = c.rng.chance(.15), dead = c.rng.chance(.4), finsucc = c.rng.chance(.15);
  size_t nc = c.rng.range(1, 4);
  std::vector<std::pair<std::string, float>> cw;
  if (comps) for (size_t i = 0; i < nc; ++i) cw.push_back({"w" + std::to_string(i), (float)(c.rng.range(neg ? 0 : -16, 32) / 16.)});
  g.init = c.rng.chance(.4) ? 0 : -3 * c.rng.unit();
  auto val = [&] { return ties ? (double)c.rng.range(neg ? -4 : -2, neg ? 0 : 2) : neg ? -8 * c.rng.unit() : 6 * c.rng.unit() - 4; };
  static const VS V = {"A", "B", "z'", "|", ",", "\xc3\xa7", "2", "#", "0"};
  // finals: the last state, maybe others
  g.fin.insert(g.n - 1);
  for (unsigned i = 1; i + 1 < g.n; ++i) if (c.rng.chance(big ? .02 : .15)) g.fin.insert(i);
  for (int k = 0; k < m; ++k) {
    WordGraphArc a;
    unsigned p = c.rng.below(g.n - 1), s = big ? c.rng.range(p + 1, std::min<int>(g.n - 1, p + 1 + c.rng.below(12))) : c.rng.range(p + 1, g.n - 1);
    if (!finsucc && g.fin.count(p)) { if (p == 0) continue; else continue; }
    if (k > 0 && c.rng.chance(.1)) { if (g.a.empty()) continue; a = g.a[c.rng.below(g.a.size())]; p = a.predStateIndex; s = a.succStateIndex; }
    a.predStateIndex = p; a.succStateIndex = s;
    a.words.clear();
    for (int i = c.rng.range(0, 3); i > 0; --i) a.words.push_back(c.rng.pick(V));
    std::vector<double> v;
    if (comps) { double x = 0; for (size_t i = 0; i < nc; ++i) { v.push_back(val()); x += cw[i].second * v.back(); } a.arcScore = x; }
    else a.arcScore = val();
    g.a.push_back(a); g.sc.push_back(v);
  }
  if (!dead) {   // make sure there is a path
    WordGraphArc a; a.predStateIndex = 0; a.succStateIndex = g.n - 1; a.arcScore = -20; a.words = {"last"};
    std::vector<double> v; if (comps) { double x = 0; for (size_t i = 0; i < nc; ++i) { v.push_back(-5); x += cw[i].second * v.back(); } a.arcScore = x; }
    g.a.push_back(a); g.sc.push_back(v);
  }
  if (g.a.empty()) return;
  // topological order: by predecessor, any order among equals
  std::vector<unsigned> o; for (unsigned i = 0; i < g.a.size(); ++i) o.push_back(i);
  c.rng.shuffle(o);
  bool shuffled = c.rng.chance(.3);
  if (!shuffled) std::stable_sort(o.begin(), o.end(), [&](unsigned x, unsigned y) { return g.a[x].predStateIndex < g.a[y].predStateIndex; });
  Gr t = g; t.a.clear(); t.sc.clear();
  unsigned top = 0;
  for (unsigned i : o) { t.a.push_back(g.a[i]); t.sc.push_back(g.sc[i]); top = std::max({top, g.a[i].succStateIndex, g.a[i].predStateIndex}); }
  t.n = top + 1;
  std::set<unsigned> fs; for (unsigned f : t.fin) if (f < t.n) fs.insert(f);      // a final state must exist
  if (fs.empty()) fs.insert(t.n - 1);
  t.fin = fs;
  t.pruned.assign(t.a.size(), 0);
  t.index();
  if (!comps) t.sc.clear();
  c.note("%s", t.show().c_str());
  WordGraph wg;
  if (c.rng.chance(.5)) for (unsigned f : t.fin) wg.addFinalState(f);
  for (unsigned i = 0; i < t.a.size(); ++i) {
    if (comps) { std::vector<Score> sv(t.sc[i].begin(), t.sc[i].end()); wg.addArcWithScrComps(t.a[i].predStateIndex, t.a[i].succStateIndex, t.a[i].words, t.a[i].arcScore, sv); }
    else wg.addArc(t.a[i].predStateIndex, t.a[i].succStateIndex, t.a[i].words, t.a[i].arcScore);
  }
  for (unsigned f : t.fin) wg.addFinalState(f);
  wg.setInitialStateScore(t.init);
  if (comps) wg.setCompWeights(cw);
  if (wg.numStates() != t.n || wg.numArcs() != t.a.size()) c.fail("size", "%zu states, %zu arcs of %u, %zu", wg.numStates(), wg.numArcs(), t.n, t.a.size());
  for (unsigned s = 0; s < t.n; ++s) {
    std::vector<WordGraphArcId> ids; wg.getArcIdsToSuccStates(s, ids);
    if (std::vector<unsigned>(ids.begin(), ids.end()) != t.out[s]) c.fail("succ", "the arcs leaving state %u", s);
    wg.getArcIdsToPredStates(s, ids);
    std::vector<unsigned> e; for (unsigned i = 0; i < t.a.size(); ++i) if (t.a[i].succStateIndex == s) e.push_back(i);
    if (std::vector<unsigned>(ids.begin(), ids.end()) != e) c.fail("pred", "the arcs arriving at state %u", s);
  }
  c.distinct(t.show());
  c.eval();
  if (shuffled) {
    roundtrip(c, wg, t, "shuffled", false);
    bool w1, w2; auto before = pathset(t, 3000, w1, 9);
    { Mute m; wg.orderArcsTopol(); }
    Gr h = Gr::of(wg); h.sc = comps ? printed_comps(wg) : std::vector<std::vector<double>>();
    h.init = t.init;
    for (unsigned s = 0; s < h.n; ++s) {
      std::vector<WordGraphArc> v; wg.getArcsToSuccStates(s, v);
      if (v.size() != h.out[s].size()) c.fail("topol:succ", "state %u: %zu arcs leave it, %zu reported", s, h.out[s].size(), v.size());
      for (auto& x : v) if (x.predStateIndex != s) c.fail("topol:succ", "an arc from state %u is reported to leave %u", x.predStateIndex, s);
      wg.getArcsToPredStates(s, v);
      for (auto& x : v) if (x.succStateIndex != s) c.fail("topol:pred", "an arc to state %u is reported to arrive at %u", x.succStateIndex, s);
    }
    bool fs2 = false; for (unsigned f : t.fin) if (!t.out[f].empty()) fs2 = true;
    if (!fs2) { if (!w1 && t.finger([&](unsigned i) { return t.arc(i, 9); }) != h.finger([&](unsigned i) { return h.arc(i, 9); })) c.fail("topol:paths", "the paths of the ordered graph are not those of the graph: %s", h.show().c_str()); auto after = pathset(h, 3000, w2, 9); if (w1 && w2 && before != after) c.fail("topol:paths", "the paths of the ordered graph are not those of the graph: %s", h.show().c_str()); }
    std::vector<char> started(h.n, 0);
    for (unsigned i = 0; i < h.a.size(); ++i) { if (started[h.a[i].succStateIndex]) c.fail("topol:order", "arc %u arrives at state %u after an arc that leaves it", i, h.a[i].succStateIndex); started[h.a[i].predStateIndex] = 1; }
    c.count("graphs_ordered");
    t = h;
    c.note("ordered: %s", t.show().c_str());
  }
  std::vector<float> alt; for (size_t i = 0; i < nc; ++i) alt.push_back(c.rng.range(0, 32) / 16.f);
  best_paths(c, wg, t, comps ? &alt : nullptr, "graph");
  nbest(c, wg, t, "graph");
  useful(c, wg, t, "graph");
  roundtrip(c, wg, t, "graph", c.rng.chance(.5));
  if (c.rng.chance(.12)) wgproc(c, wg, t, "graph");
  for (int k = 0; k < 2; ++k) {
    static const double T[] = {0, 1, .5, .1, .01, 1e-4, .9};
    double thr = T[c.rng.below(7)];
    prune(c, wg, t, thr, "graph");
    Gr p = Gr::of(wg); p.sc = t.sc;
    c.note("pruned with %g: %s", thr, p.show().c_str());
    nbest(c, wg, p, "pruned"); useful(c, wg, p, "pruned"); roundtrip(c, wg, p, "pruned", c.rng.chance(.5)); best_paths(c, wg, p, nullptr, "pruned");
    wg.prune(UNLIMITED_DENSITY);
    for (unsigned i = 0; i < t.a.size(); ++i) if (wg.arcPruned(i)) c.fail("unprune", "arc %u is still pruned", i);
  }
  if (comps) {     // new weights
    std::vector<std::pair<std::string, float>> w2 = cw; for (auto& x : w2) x.second = c.rng.range(0, 40) / 16.f;
    wg.setCompWeights(w2);
    for (unsigned i = 0; i < t.a.size(); ++i) { double x = 0; for (size_t j = 0; j < nc; ++j) x += w2[j].second * t.sc[i][j]; if (!eq(x, wg.wordGraphArcId2WordGraphArc(i).arcScore, 1e-6)) c.fail("rescore", "arc %u scores %.9g with new weights, by its components %.9g", i, wg.wordGraphArcId2WordGraphArc(i).arcScore, x); t.a[i].arcScore = x; }
    best_paths(c, wg, t, nullptr, "rescored"); nbest(c, wg, t, "rescored");
    c.count("rescorings");
  }
  c.sample(t.show());
}

// ---- the graph of the decoder
struct Enum {      // every derivation of a sentence
  World& w; VS src; unsigned J; std::vector<std::vector<Seg>> r; size_t cap; bool over = false;
  std::map<std::pair<unsigned, unsigned>, std::vector<VS>> oc;
  const std::vector<VS>& opts(unsigned l, unsigned e) {
    auto i = oc.find({l, e}); if (i != oc.end()) return i->second;
    std::set<VS> o; w.options(VS(src.begin() + l - 1, src.begin() + e), o);
    std::vector<VS> v(o.begin(), o.end());
    if (l == e && v.empty()) v.push_back({"UNKNOWN_WORD"});
    return oc[{l, e}] = v;
  }
  void go(unsigned mask, std::vector<Seg>& h) {
    if (over) return;
    if (mask == (1u << J) - 1) { r.push_back(h); if (r.size() > cap) over = true; return; }
    for (unsigned g = 1; g <= J; ++g) {
      if (mask >> (g - 1) & 1 || (g > 1 && !(mask >> (g - 2) & 1))) continue;
      unsigned ge = g; while (ge < J && !(mask >> ge & 1)) ge++;
      for (unsigned l = g; l <= ge && l - g <= w.U; ++l)
        for (unsigned e = l; e <= ge && e - l + 1 <= w.A; ++e)
          for (auto& t : opts(l, e)) { unsigned m = mask; for (unsigned p = l; p <= e; ++p) m |= 1u << (p - 1); h.push_back({l, e, t}); go(m, h); h.pop_back(); }
    }
  }
};

static void decoder(Ctx& c) {
  World w;
  std::string dir = c.scratch + "/w";
  wipe(dir);
  w.noties = c.rng.chance(.5);
  w.gen(c, dir);
  Host h(w);
  if (!h.ok) c.fail("load", "the models do not load");
  h.rec->enableWordGraph();
  int nq = c.rng.range(1, 3);
  for (int it = 0; it < nq; ++it) {
    bool exact = c.rng.chance(.5);
    w.A = c.rng.chance(.3) ? 10 : c.rng.range(1, 3);
    w.U = c.rng.chance(.4) ? 0 : c.rng.chance(.5) ? c.rng.range(1, 2) : 10;
    w.Wp = exact || c.rng.chance(.4) ? 1000000 : c.rng.range(1, 4);
    w.S = exact ? 1000000 : c.rng.range(1, 20);
    w.I = exact ? 1 : c.rng.range(1, 3);
    w.bf = exact || c.rng.chance(.5);
    w.bsp = false;
    static const int H[] = {NO_HEURISTIC, LOCAL_T_HEURISTIC, LOCAL_TD_HEURISTIC};
    w.heur = H[c.rng.below(3)];
    w.w.clear();
    for (size_t i = 0; i < w.ncomp(); ++i) w.w.push_back(c.rng.chance(.3) ? 1.f : (float)(c.rng.range(1, 40) / 16.));
    w.ew = w.w;
    { Mute mute; h.pars(w); }
    bool incl = c.rng.chance(.8);
    if (incl) h.rec->includeScoreCompsInWg(); else h.rec->excludeScoreCompsInWg();
    VS unk = {"unseen", "Zz", "7"};
    VS src; int J = c.rng.range(1, exact ? 4 : 5);
    for (int i = 0; i < J; ++i) src.push_back(c.rng.chance(.08) ? c.rng.pick(unk) : c.rng.pick(w.sv));
    int mode = c.rng.chance(.75) ? 0 : c.rng.range(1, 3);
    std::string g;
    if (mode) { VS r = World::phrase(c, w.tv, 1, 4); g = S(r); }
    char cfg[200]; snprintf(cfg, 200, "W %g A %u U %u S %u I %u heur %d bf %d comps %d mode %d", w.Wp, w.A, w.U, w.S, w.I, w.heur, w.bf, incl, mode);
    c.note("%s: '%s' '%s'", cfg, S(src).c_str(), g.c_str());
    Hyp y; bool complete; VS text;
    { Mute mute;
      y = mode == 0 ? h.dec->translate(S(src)) : mode == 1 ? h.dec->translateWithRef(S(src), g) : mode == 2 ? h.dec->verifyCoverageForRef(S(src), g) : h.dec->translateWithPrefix(S(src), g);
      complete = h.m->isComplete(y); if (complete) text = h.m->getTransInPlainTextVec(y); }
    double sc = (double)y.getScore();
    WordGraph G = *h.rec->getWordGraphPtr();
    Gr gr = Gr::of(G);
    c.eval();
    // the best path of what was recorded is the translation
    if (complete && mode == 0) {
      if (gr.a.empty()) c.fail("dec:empty", "a translation and no graph");
      double b = gr.best(0) + gr.init;
      if (!(b >= sc - 2e-3 - 2e-4 * fabs(sc))) c.fail("dec:best", "the translation scores %.9g, the best path of the graph %.9g: %s", sc, b, gr.show().c_str());
      if (exact && !close_enough(b, sc, 2e-4, 2e-3)) c.fail("dec:best", "the translation scores %.9g, the best path of the graph %.9g", sc, b);
      c.count("decoder_graphs");
    }
    { std::vector<char> started(gr.n, 0); for (unsigned i = 0; i < gr.a.size(); ++i) { if (started[gr.a[i].succStateIndex] && !std::isinf(gr.best(gr.a[i].succStateIndex))) c.count("arcs_out_of_order"); started[gr.a[i].predStateIndex] = 1; } }
    // the library agrees about its own graph
    if (!gr.a.empty()) { if (mode == 0) best_paths(c, G, gr, nullptr, "dec"); }
    else { std::vector<WordGraphArc> v; Mute m; G.bestPathFromFinalStateToIdx(0, {}, v); std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> sv; G.obtainNbestList(3, nb, hl, sv); G.prune(.5); G.obtainWgComposedOfUsefulStates(); c.count("empty_graphs"); }
    std::string pre = c.scratch + "/p";
    { Mute mute; h.rec->printWordGraph(pre.c_str()); }
    if (!complete) { c.count("incomplete"); continue; }
    bool topo = true;
    { std::vector<char> started(gr.n, 0); for (unsigned i = 0; i < gr.a.size(); ++i) { if (started[gr.a[i].succStateIndex]) topo = false; started[gr.a[i].predStateIndex] = 1; } }
    if (!topo && mode == 0) c.fail("dec:order", "an arc arrives at a state after an arc that leaves it: %s", gr.show().c_str());
    if (topo) nbest(c, G, gr, "dec", 1500);
    else {      // the graph has to be ordered first
      WordGraph O = G; { Mute m; O.orderArcsTopol(); }
      Gr o = Gr::of(O);
      nbest(c, O, o, "dec:ordered", 1500); best_paths(c, O, o, nullptr, "dec:ordered");
      double thr = c.rng.unit(); prune(c, O, o, thr, "dec:ordered");
      c.count("decoder_graphs_ordered");
    }
    // coverage of every state
    std::map<unsigned, std::string> cov;
    { std::ifstream i(pre + ".idx"); std::string l; while (std::getline(i, l)) if (l.substr(0, 1) != "#") { VS f = W(l); if (f.size() > 1) cov[atoi(f[0].c_str())] = f[1]; } }
    WordGraph P; { Mute m; P.load((pre + ".wg").c_str()); }
    Gr p = Gr::of(P); p.sc = printed_comps(P);
    if (mode == 0) {
      // with components the arcs are rescored with them; without, they carry the heuristic
      double a = incl ? gr.best(0) + gr.init - w.wt(0) * log(.7) : gr.best(0), b = p.n ? p.best(0) : -INFINITY;
      if (std::isinf(b) || !close_enough(a, b, 1e-4, 1e-4)) c.fail("dec:file", "the best path scores %.9g, %.9g in the file (translation %.9g, init %.9g, w0 %g): %s", a, b, sc, gr.init, w.wt(0), gr.show().c_str());
    }
    if (mode == 0) {
      // every path of the graph is a derivation with the score the models give it
      std::vector<Path> ps; gr.paths(ps, 3000);
      bool whole = ps.size() <= 3000;
      if (ps.size() > 150) { std::vector<Path> q; for (int i = 0; i < 150; ++i) q.push_back(c.rng.pick(ps)); if (!whole) ps = q; else { std::vector<size_t> k; ps.swap(q); } }
      std::vector<std::vector<double>> gsc;
      if (incl) { gsc = printed_comps(G); if (gsc.size() != gr.a.size()) gsc.clear(); }
      for (auto& path : ps) {
        std::vector<Seg> d; bool ok = true;
        for (auto i : path) {
          auto x = cov.find(gr.a[i].predStateIndex), z = cov.find(gr.a[i].succStateIndex);
          if (x == cov.end() || z == cov.end()) c.fail("dec:idx", "no coverage listed for a state of arc %u->%u", gr.a[i].predStateIndex, gr.a[i].succStateIndex);
          Seg s{0, 0, gr.a[i].words}; unsigned k = 0; auto bit = [](const std::string& v, unsigned q) { return q < v.size() ? v[v.size() - 1 - q] : '0'; };
          for (unsigned q = 1; q <= (unsigned)J; ++q) { char b0 = bit(x->second, q), b1 = bit(z->second, q); if (b0 == '1' && b1 != '1') ok = false; if (b0 != b1) { k++; if (!s.l) s.l = q; s.r = q; } }
          if (!ok || !k || s.r - s.l + 1 != k) c.fail("dec:coverage", "arc %u->%u does not cover one more segment: %s then %s", gr.a[i].predStateIndex, gr.a[i].succStateIndex, x->second.c_str(), z->second.c_str());
          std::set<VS> o; w.options(VS(src.begin() + s.l - 1, src.begin() + s.r), o);
          if (s.l == s.r && o.empty()) { if (s.t != VS{src[s.l - 1]}) c.fail("dec:unknown", "the unknown word '%s' became '%s'", src[s.l - 1].c_str(), S(s.t).c_str()); s.t = {"UNKNOWN_WORD"}; }
          else if (!o.count(s.t)) c.fail("dec:option", "arc %u->%u: '%s' is no translation of words %u-%u", gr.a[i].predStateIndex, gr.a[i].succStateIndex, S(s.t).c_str(), s.l, s.r);
          d.push_back(s);
        }
        unsigned n = 0; for (auto& s : d) n += s.r - s.l + 1;
        if (n != (unsigned)J) c.fail("dec:incomplete", "a path to a final state covers %u of %d words", n, J);
        auto v = w.comps(src, d);
        double e = w.dot(v), x = gr.sum(path);
        if (!close_enough(e, x, 2e-4, 2e-3)) c.fail("dec:path", "a path scores %.9g, its derivation %s by definition %.9g", x, show(d).c_str(), e);
        if (gsc.size()) {
          std::vector<double> t(v.size(), 0); t[0] = log(.7);
          for (auto i : path) { if (gsc[i].size() != t.size()) c.fail("dec:comps", "%zu components, %zu expected", gsc[i].size(), t.size()); for (size_t j = 0; j < t.size(); ++j) t[j] += gsc[i][j]; }
          for (size_t j = 0; j < t.size(); ++j) if (!close_enough(t[j], v[j], 2e-4, 2e-3)) c.fail("dec:comp", "component %zu of a path is %.9g, by definition %.9g: %s", j, t[j], v[j], show(d).c_str());
        }
        c.count("decoder_paths");
      }
      c.maxi("max_decoder_arcs", gr.a.size());
      // nothing is missing from the graph of an exhaustive search
      if (exact) {
        Enum en{w, src, (unsigned)J, {}, c.thorough ? 20000u : 4000u, false, {}}; std::vector<Seg> hh; en.go(0, hh);
        if (!en.over) {
          std::vector<Path> all; gr.paths(all, 25000);
          // a state that got a better score after it was expanded is expanded again
          std::set<std::string> ak; bool again = false;
          for (auto& x : gr.a) if (!ak.insert(std::to_string(x.predStateIndex) + ">" + std::to_string(x.succStateIndex) + S(x.words)).second) again = true;
          if (again) { c.count("graphs_with_repeated_arcs"); continue; }
          if (all.size() != en.r.size()) c.fail("dec:all", "%zu paths in the graph of an exhaustive search, %zu derivations: %s", all.size(), en.r.size(), gr.show().c_str());
          std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> sv;
          { Mute m; G.obtainNbestList(25, nb, hl, sv); }
          std::vector<double> s; for (auto& d : en.r) s.push_back(w.dot(w.comps(src, d)));
          std::sort(s.rbegin(), s.rend());
          for (size_t i = 0; i < nb.size(); ++i) if (!close_enough(nb[i].first, s[i], 2e-4, 2e-3)) c.fail("dec:nbest", "entry %zu of the n-best list scores %.9g, the derivation %.9g", i, nb[i].first, s[i]);
          c.count("exhaustive_graphs");
          c.count("derivations", s.size());
          if (incl) {     // other weights, as when a stored graph is used by a tuned system
            std::vector<float> w2; for (size_t i = 0; i < w.ncomp(); ++i) w2.push_back(c.rng.range(1, 40) / 16.f);
            std::vector<std::pair<std::string, float>> cw; P.getCompWeights(cw);
            if (cw.size() != w2.size()) c.fail("dec:weights", "%zu weights in the file, %zu components", cw.size(), w2.size());
            for (size_t i = 0; i < cw.size(); ++i) if (!close_enough(cw[i].second, w.wt(i), 1e-5)) c.fail("dec:weights", "weight %zu is %g in the file, %g", i, cw[i].second, w.wt(i));
            std::vector<float> old = w.ew; w.ew = w2;
            double b = -INFINITY; for (auto& d : en.r) b = std::max(b, w.dot(w.comps(src, d)));
            b -= w2[0] * log(.7);
            w.ew = old;
            double r1, r2; std::vector<WordGraphArc> v;
            { Mute m; r1 = P.bestPathFromFinalStateToIdxWeights(0, {}, w2, v); }
            for (size_t i = 0; i < cw.size(); ++i) cw[i].second = w2[i];
            P.setCompWeights(cw);
            { Mute m; r2 = P.bestPathFromFinalStateToIdx(0, {}, v); }
            if (!close_enough(r1, b, 3e-4, 5e-3) || !close_enough(r2, b, 3e-4, 5e-3)) c.fail("dec:rescore", "with other weights the best path of the stored graph scores %.9g (%.9g after rescoring), the best derivation %.9g", r1, r2, b);
            c.count("decoder_rescorings");
          }
        }
      }
      if (topo) {
        static const double T[] = {0, 1, .5, .1, .01, .9};
        double thr = T[c.rng.below(6)];
        prune(c, G, gr, thr, "dec");
        Gr pp = Gr::of(G);
        nbest(c, G, pp, "dec:pruned", 1500);
        useful(c, G, pp, "dec:pruned");
      }
      if (c.rng.chance(.1)) { WordGraph Q; { Mute m; Q.load((pre + ".wg").c_str()); } Gr q = Gr::of(Q); wgproc(c, Q, q, "dec"); }
    }
    c.distinct(std::string(cfg) + S(src) + g + std::to_string(gr.a.size()) + std::to_string(sc));
    c.sample(std::string(cfg) + " '" + S(src) + "': " + std::to_string(gr.a.size()) + " arcs, " + std::to_string(gr.n) + " states");
  }
}

static void one(Ctx& c) {
  if (c.mode == "graph" || (c.mode.empty() && c.idx % 3)) graph(c);
  else decoder(c);
}
int main(int a, char** v) { return vh::run(a, v, one); }
