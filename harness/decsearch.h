// Exhaustive search with the decoder's search space, and the checks every hypothesis must pass.
#ifndef DECSEARCH_H
#define DECSEARCH_H
#include "dechost.h"

enum Mode { FREE, REF, VER, PREF };
static const char* MN[] = {"free", "ref", "ver", "prefix"};

inline bool strprefix(const std::string& a, const std::string& b) { return b.compare(0, a.size(), a) == 0; }

struct Search {
  Ctx& c; World& w; VS src; Mode mode; VS given; bool blank;     // reference or prefix
  unsigned J;
  std::map<std::pair<unsigned, unsigned>, std::vector<VS>> oc;
  std::map<std::pair<unsigned, unsigned>, VS> cons;      // translations imposed on source phrases
  bool affected(unsigned l, unsigned r) const { for (auto& k : cons) if (l <= k.first.second && r >= k.first.first) return true; return false; }
  bool tie = false;        // the W limit falls between equal scores: the table of options is not determined
  Search(Ctx& c, World& w, const VS& s, Mode m, const std::string& g) : c(c), w(w), src(s), mode(m), given(W(g)), blank(!g.empty() && g.back() == ' '), J(s.size()) {}

  bool hastrans(const std::string& x) { std::set<VS> o; w.options({x}, o); return !o.empty(); }

  double local(const VS& s, const VS& t) {      // rank of a translation option
    auto st = w.begin();
    for (auto& x : st) x.clear();
    std::vector<WordIndex> none;
    double v = w.wt(0) * t.size() * log(1 - .7);
    size_t k = 1;
    for (size_t i = 0; i < w.lm.size(); ++i, ++k) {
      std::vector<WordIndex> h; w.lm[i]->getStateForWordSeq(none, h);
      double x = 0;
      for (auto& q : t) x += (double)w.lm[i]->getNgramLgProbGivenState(w.lm[i]->existSymbol(q) ? w.lm[i]->stringToWordIndex(q) : w.lm[i]->stringToWordIndex("<unk>"), h);
      v += w.wt(k) * x;
    }
    for (double x : w.pair_scores(s, t)) v += w.wt(k++) * x;
    return v + w.dictscore(s, t);
  }

  std::vector<VS> cut(std::vector<std::pair<double, VS>> v) {
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first > b.first; });
    std::vector<VS> r;
    if (w.Wp >= 1) {
      size_t n = (size_t)(unsigned)w.Wp;
      if (v.size() > n && v[n - 1].first - v[n].first < 1e-4 * (1 + std::min(fabs(v[n].first), 5e3))) tie = true;
      for (size_t i = 0; i < v.size() && i < n; ++i) r.push_back(v[i].second);
    } else {
      for (auto& x : v) {
        double lim = v[0].first + log(w.Wp);
        if (fabs(x.first - lim) < 1e-3 * (1 + std::min(fabs(lim), 5e3))) tie = true;
        if (x.first >= lim) r.push_back(x.second);
      }
    }
    return r;
  }

  const std::vector<VS>& table(unsigned l, unsigned r) {
    auto it = oc.find({l, r});
    if (it != oc.end()) return it->second;
    VS s(src.begin() + l - 1, src.begin() + r);
    std::set<VS> o; w.options(s, o);
    std::vector<VS> v;
    if (affected(l, r)) {
      auto k = cons.find({l, r});
      if (k != cons.end()) v.push_back(k->second);
      return oc[{l, r}] = v;
    }
    if (l == r && o.empty()) v.push_back({"UNKNOWN_WORD"});
    else {
      std::vector<std::pair<double, VS>> q;
      for (auto& x : o) q.push_back({local(s, x), x});
      v = cut(q);
    }
    return oc[{l, r}] = v;
  }

  // what may translate l..r after `done` target words; left: source words still uncovered afterwards
  std::vector<VS> opts(unsigned l, unsigned r, unsigned done, unsigned left, unsigned gapsAfter) {
    VS s(src.begin() + l - 1, src.begin() + r);
    unsigned n = s.size(), lo = n > w.E ? n - w.E : 0, hi = n + w.E;
    if (mode == FREE) return table(l, r);
    if (mode == VER) return table(l, r);
    if (mode == REF) {
      if (done > given.size()) return {};
      std::vector<std::pair<double, VS>> q;
      if (left == 0) {
        VS t(given.begin() + done, given.end());
        if (t.size() >= lo && t.size() <= hi) return {t};
        return {};
      }
      unsigned res = w.U == 0 ? 1 : gapsAfter;
      for (unsigned e = done + 1; e + res <= given.size(); ++e) {
        VS t(given.begin() + done, given.begin() + e);
        if (t.size() >= lo && t.size() <= hi) q.push_back({local(s, t), t});
      }
      return cut(q);
    }
    if (done >= given.size()) return table(l, r);
    VS rem(given.begin() + done, given.end());
    std::vector<std::pair<double, VS>> q;
    std::set<VS> o; w.options(s, o);
    for (auto& t : o) {
      if (t.size() < rem.size()) continue;
      bool p = true;
      for (size_t i = 0; i < rem.size(); ++i) if (t[i] != rem[i] && !(i + 1 == rem.size() && !blank && strprefix(rem[i], t[i]))) p = false;
      if (p && t != rem) {
        // the text is exactly the remaining prefix: same as generating the prefix itself
        q.push_back({local(s, t), t});
      }
    }
    if (left > 0)
      for (unsigned e = 1; e < rem.size(); ++e) if (e >= lo && e <= hi) { VS t(rem.begin(), rem.begin() + e); q.push_back({local(s, t), t}); }
    q.push_back({local(s, rem), rem});
    return cut(q);
  }

  struct St { Mask mask; unsigned pe, n; World::LS ls; bool operator<(const St& o) const { return std::tie(mask, pe, n, ls) < std::tie(o.mask, o.pe, o.n, o.ls); } };
  struct Val { double sc; std::vector<Seg> h; };

  unsigned gaps(const Mask& m) { unsigned g = 0; bool in = false; for (unsigned i = 0; i < J; ++i) { bool u = !m[i]; if (u && !in) g++; in = u; } return g; }

  // best score of a complete hypothesis, or nothing
  bool best(Val& out, uint64_t& nst) {
    std::vector<std::map<St, Val>> lay(J + 1);
    St s0{Mask(), 0, 0, w.begin()};
    lay[0][s0] = {w.wt(0) * log(.7), {}};
    bool any = false;
    for (unsigned k = 0; k < J; ++k)
      for (auto& kv : lay[k]) {
        const St& s = kv.first;
        nst++;
        for (unsigned g = 1; g <= J; ++g) {
          if (s.mask[g - 1] || (g > 1 && !s.mask[g - 2])) continue;     // g starts a gap
          unsigned ge = g; while (ge < J && !s.mask[ge]) ge++;
          for (unsigned l = g; l <= ge && l - g <= w.U; ++l)
            for (unsigned r = l; r <= ge && (r - l + 1 <= w.A || affected(l, r)); ++r) {
              Mask nm = s.mask; nm.set(l, r);
              unsigned cov = k + r - l + 1;
              for (auto& t : opts(l, r, s.n, J - cov, gaps(nm))) {
                if (mode == VER) {
                  if (s.n + t.size() > given.size() || !std::equal(t.begin(), t.end(), given.begin() + s.n)) continue;
                  if (cov == J && s.n + t.size() != given.size()) continue;
                }
                St n{nm, r, (unsigned)(s.n + t.size()), s.ls};
                std::vector<double> v(w.ncomp(), 0);
                Seg sg{l, r, t};
                w.comps(src, sg, s.mask, s.pe, n.ls, cov == J, v);
                double sc = kv.second.sc + w.dot(v);
                if (cov == J) {
                  if (!any || sc > out.sc) { out.sc = sc; out.h = kv.second.h; out.h.push_back(sg); any = true; }
                } else {
                  auto& d = lay[cov];
                  auto it = d.find(n);
                  if (it == d.end() || it->second.sc < sc) { Val x{sc, kv.second.h}; x.h.push_back(sg); d[n] = x; }
                }
              }
            }
        }
      }
    return any;
  }
};

inline Hyp go(Host& h, Mode m, const std::string& s, const std::string& g) {
  Mute mute;
  switch (m) {
    case FREE: return h.dec->translate(s);
    case REF: return h.dec->translateWithRef(s, g);
    case VER: return h.dec->verifyCoverageForRef(s, g);
    default: return h.dec->translateWithPrefix(s, g);
  }
}

// everything a returned hypothesis must satisfy; returns its recomputed score
inline double sound(Ctx& c, World& w, Host& h, Search& q, Mode m, const Hyp& y, const std::string& given, const char* what) {
  auto sg = h.segs(y);
  std::string K = std::string(MN[m]) + ":";
  unsigned J = q.J, n = 0, cov = 0;
  Mask mask;
  PhrHypData d = y.getData();
  if (d.sourceSegmentation.size() != d.targetSegmentCuts.size()) c.fail(K + "data", "%s: %zu source segments, %zu target cuts", what, d.sourceSegmentation.size(), d.targetSegmentCuts.size());
  for (auto& g : sg) {
    if (g.l < 1 || g.r < g.l || g.r > J) c.fail(K + "segment", "%s: segment %u-%u of %u words: %s", what, g.l, g.r, J, show(sg).c_str());
    for (unsigned p = g.l; p <= g.r; ++p) { if (mask[p - 1]) c.fail(K + "twice", "%s: source word %u translated twice: %s", what, p, show(sg).c_str()); }
    if (g.r - g.l + 1 > w.A && !q.affected(g.l, g.r)) c.fail(K + "A", "%s: phrase %u-%u longer than %u", what, g.l, g.r, w.A);
    unsigned gs = g.l; while (gs > 1 && !mask[gs - 2]) gs--;
    if (g.l - gs > w.U) c.fail(K + "U", "%s: %u words jumped (limit %u): %s", what, g.l - gs, w.U, show(sg).c_str());
    mask.set(g.l, g.r);
    cov += g.r - g.l + 1;
    auto o = q.opts(g.l, g.r, n, J - cov, q.gaps(mask));
    if (!q.tie && std::find(o.begin(), o.end(), g.t) == o.end()) {
      VS s(q.src.begin() + g.l - 1, q.src.begin() + g.r);
      c.fail(K + "option", "%s: '%s' translated as '%s', which is not one of its %zu options here: %s", what, S(s).c_str(), S(g.t).c_str(), o.size(), show(sg).c_str());
    }
    n += g.t.size();
  }
  if (cov != J) c.fail(K + "coverage", "%s: %u of %u source words translated: %s", what, cov, J, show(sg).c_str());
  auto v = w.comps(q.src, sg);
  std::vector<Score> sc2; { Mute mute; sc2 = h.m->scoreCompsForHyp(y); }
  if (sc2.size() != v.size()) c.fail(K + "comps", "%s: %zu components, expected %zu", what, sc2.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) if (!close_enough(v[i], sc2[i], 2e-4, 2e-3)) c.fail(K + "comp", "%s: component %zu is %.9g, by definition %.9g: %s", what, i, (double)sc2[i], v[i], show(sg).c_str());
  double e = w.dot(v), sc = (double)y.getScore();
  if (!w.same(e, sc, w.dictpart(v))) {
    std::string o; for (size_t i = 0; i < v.size(); ++i) o += " " + std::to_string(v[i]) + "*" + std::to_string(w.wt(i));
    c.fail(K + "score", "%s: score %.9g, by definition %.9g (%s): %s", what, sc, e, o.c_str(), show(sg).c_str());
  }
  // the text
  VS t; { Mute mute; t = h.m->getTransInPlainTextVec(y); }
  VS want;
  for (auto& g : sg) for (size_t k = 0; k < g.t.size(); ++k) want.push_back(g.t[k] == "UNKNOWN_WORD" && !(m == PREF && want.size() < q.given.size()) ? q.src[g.l - 1 + std::min<size_t>(k, g.r - g.l)] : g.t[k]);
  if (t != want) c.fail(K + "text", "%s: text '%s', expected '%s' from %s", what, S(t).c_str(), S(want).c_str(), show(sg).c_str());
  if ((m == REF || m == VER) && t != q.given) c.fail(K + "reference", "%s: '%s' is not the reference '%s'", what, S(t).c_str(), given.c_str());
  if (m == PREF && !strprefix(S(q.given) + (q.blank && t.size() > q.given.size() ? " " : ""), S(t))) c.fail(K + "prefix", "%s: '%s' does not start with '%s'", what, S(t).c_str(), given.c_str());
  c.count("hypotheses_checked");
  c.count(std::string("hypotheses_") + MN[m]);
  c.maxi("max_segments", sg.size());
  return e;
}
#endif
