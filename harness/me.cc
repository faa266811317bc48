// MODULES: dec phr ec sw incr dhs nlp
// evaluation metrics against their definitions over n-gram multisets
#include "vh.h"
#include "bleu.h"
#include "chrf.h"
#include "MiraBleu.h"
#include "MiraGtm.h"
#include "MiraWer.h"
#include "MiraChrF.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>
using namespace vh;
typedef std::vector<std::string> VS;

struct Mute { std::streambuf* o; Mute() : o(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cerr.rdbuf(o); } };
static bool eq(double a, double b, double t = 1e-6) { return fabs(a - b) <= t * (1 + fabs(a) + fabs(b)); }

template <class Q> static std::map<Q, unsigned> grams(const Q& s, size_t n) {
  std::map<Q, unsigned> m;
  for (size_t i = 0; i + n <= s.size(); ++i) m[Q(s.begin() + i, s.begin() + i + n)]++;
  return m;
}
template <class Q> static unsigned clipped(const Q& a, const Q& b, size_t n) {
  auto x = grams(a, n), y = grams(b, n);
  unsigned k = 0;
  for (auto& e : x) { auto i = y.find(e.first); if (i != y.end()) k += std::min(e.second, i->second); }
  return k;
}
static unsigned total(size_t l, size_t n) { return l >= n ? l - n + 1 : 0; }

struct St { double v[10] = {0}; };   // system words, reference words, (matches, n-grams) x 4
static St stats(const VS& sys, const VS& ref) {
  St s; s.v[0] = sys.size(); s.v[1] = ref.size();
  for (int n = 1; n <= 4; ++n) { s.v[2 * n] = clipped(sys, ref, n); s.v[2 * n + 1] = total(sys.size(), n); }
  return s;
}
static double bleu(const St& s, bool skip) {   // skip: n-grams the corpus has none of do not count
  double bp = s.v[0] < s.v[1] ? (s.v[0] == 0 ? 0 : exp(1 - s.v[1] / s.v[0])) : 1, l = 0;
  for (int n = 1; n <= 4; ++n) {
    if (s.v[2 * n + 1] == 0) { if (skip) continue; return 0; }
    if (s.v[2 * n] == 0) return 0;
    l += log(s.v[2 * n] / s.v[2 * n + 1]);
  }
  return bp * exp(l / 4);
}
static unsigned lev(const VS& a, const VS& b) {
  std::vector<std::vector<unsigned>> m(a.size() + 1, std::vector<unsigned>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); ++i)
    for (size_t j = 0; j <= b.size(); ++j) {
      if (!i || !j) { m[i][j] = i + j; continue; }
      m[i][j] = std::min(std::min(m[i - 1][j], m[i][j - 1]) + 1, m[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
    }
  return m[a.size()][b.size()];
}
static double f1(double m, double c, double r) { return m == 0 ? 0 : 2 * (m / c) * (m / r) / (m / c + m / r); }
static std::string join(const VS& v) { std::string s; for (auto& w : v) { if (!s.empty()) s += ' '; s += w; } return s; }
static double chrf(const VS& sv, const VS& rv) {
  std::string s = join(sv), r = join(rv);
  if (s.empty() && r.empty()) return 1;
  if (s.empty() || r.empty()) return 0;
  double p = 0, q = 0;
  for (size_t n = 1; n <= 4; ++n) {
    double m = clipped(s, r, n);
    if (s.size() >= n) p += m / total(s.size(), n);
    if (r.size() >= n) q += m / total(r.size(), n);
  }
  p /= std::min<size_t>(4, s.size()); q /= std::min<size_t>(4, r.size());
  return p == 0 || q == 0 ? 0 : 10 * p * q / (9 * p + q);
}

static std::string spaced(Ctx& c, const VS& v) {
  std::string s;
  if (c.rng.chance(.1)) s += ' ';
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += c.rng.chance(.1) ? "  " : " "; s += v[i]; }
  if (c.rng.chance(.1)) s += ' ';
  return s;
}

static void unit(Ctx& c, double x, const char* what) {
  if (!(x >= 0 && x <= 1 + 1e-6)) c.fail(std::string(what) + ":range", "score %.9g is not between 0 and 1", x);
}

static void run_case(Ctx& c) {
  static const char* W[] = {"a", "b", "c", "d", "ab", "ba", "the", "The", ".", "\xc3\xa9", "\xe4\xbd\xa0", "a.", "|||", "0", "00", "x_y"};
  int nw = c.rng.range(1, 16);
  std::vector<VS> S, R; VS s, r;
  int n = c.rng.range(1, c.rng.chance(.2) ? 30 : 6), maxl = c.rng.chance(.3) ? 3 : c.rng.chance(.1) ? 60 : 12;
  for (int i = 0; i < n; ++i) {
    VS x, y;
    int l = c.rng.chance(.1) ? 0 : c.rng.range(0, maxl);
    for (int k = 0; k < l; ++k) y.push_back(W[c.rng.below(nw)]);
    int kind = c.rng.below(5);
    if (kind == 0) x = y;
    else if (kind == 1) { l = c.rng.chance(.2) ? 0 : c.rng.range(0, maxl); for (int k = 0; k < l; ++k) x.push_back(W[c.rng.below(nw)]); }
    else if (kind == 2) { x = y; c.rng.shuffle(x); }
    else if (kind == 3) { for (auto& w : y) { if (c.rng.chance(.8)) x.push_back(w); if (c.rng.chance(.15)) x.push_back(W[c.rng.below(nw)]); } }
    else { x = y; if (!x.empty()) for (int k = 0; k < 2; ++k) { size_t p = c.rng.below(x.size()); x.insert(x.begin() + p, x[c.rng.below(x.size())]); } }
    S.push_back(x); R.push_back(y);
    if (c.rng.chance(.5)) { s.push_back(spaced(c, x)); r.push_back(spaced(c, y)); } else { s.push_back(join(x)); r.push_back(join(y)); }
    c.note("[%s] for [%s]", s.back().c_str(), r.back().c_str());
  }
  // ---- the corpus
  St all; double ed = 0, words = 0, gm = 0, gc = 0, chr = 0;
  for (int i = 0; i < n; ++i) {
    St x = stats(S[i], R[i]); for (int k = 0; k < 10; ++k) all.v[k] += x.v[k];
    ed += lev(S[i], R[i]); words += R[i].size(); gm += x.v[2]; gc += S[i].size(); chr += chrf(S[i], R[i]) / n;
  }
  MiraBleu mb; MiraGtm mg; MiraWer mw; MiraChrF mc;
  double x;
  mb.corpusScore(s, r, x); unit(c, x, "bleu"); if (!eq(x, bleu(all, true))) c.fail("bleu:corpus", "score %.9g, by its n-grams %.9g", x, bleu(all, true));
  double corpus = x;
  mg.corpusScore(s, r, x); unit(c, x, "gtm"); if (!eq(x, f1(gm, gc, words))) c.fail("gtm:corpus", "score %.9g, %g matches of %g and %g words give %.9g", x, gm, gc, words, f1(gm, gc, words));
  mw.corpusScore(s, r, x); if (!eq(x, words ? 1 - ed / words : 0)) c.fail("wer:corpus", "score %.9g with %g edits of %g words", x, ed, words);
  mc.corpusScore(s, r, x); unit(c, x, "chrf"); if (!eq(x, chr, 1e-5)) c.fail("chrf:corpus", "score %.9g, mean of the sentences %.9g", x, chr);
  // ---- the files
  const std::string& d = c.scratch;
  { std::ofstream a(d + "/s"), b(d + "/r"); for (int i = 0; i < n; ++i) { a << s[i] << "\n"; b << r[i] << "\n"; } }
  float bl = -1, bp = -1; std::vector<float> bn; int rc;
  { Mute m; rc = calc_bleu((d + "/r").c_str(), (d + "/s").c_str(), bl, bp, bn, c.rng.chance(.1)); }
  if (rc != THOT_OK) c.fail("bleu:file", "error");
  if (!eq(bl, bleu(all, false), 1e-5)) c.fail("bleu:file", "score %.9g, by its n-grams %.9g", bl, bleu(all, false));
  double wbp = all.v[0] < all.v[1] ? (all.v[0] ? exp(1 - all.v[1] / all.v[0]) : 0) : 1;
  if (!eq(bp, wbp, 1e-5)) c.fail("bleu:bp", "brevity penalty %.9g, should be %.9g", bp, wbp);
  for (int k = 1; k <= 4; ++k) { double w = all.v[2 * k + 1] ? all.v[2 * k] / all.v[2 * k + 1] : 0; if (bn.size() != 4 || !eq(bn[k - 1], w, 1e-5)) c.fail("bleu:prec", "precision of order %d is %.9g, should be %.9g", k, bn.size() == 4 ? bn[k - 1] : -1., w); }
  if (all.v[9] > 0 && !eq(bl, corpus, 1e-5)) c.fail("bleu:both", "%.9g in the file, %.9g as a corpus", bl, corpus);
  double cf = -1; std::vector<double> cn;
  { Mute m; rc = calculate_chrf_file_name((d + "/r").c_str(), (d + "/s").c_str(), cf, cn, 0); }
  if (rc != THOT_OK || !eq(cf, chr, 1e-5) || (int)cn.size() != n) c.fail("chrf:file", "rc %d score %.9g, mean of the sentences %.9g", rc, cf, chr);
  { std::ofstream a(d + "/l"); for (int i = 0; i + 1 < n || i < 1; ++i) a << s[i] << "\n"; if (n == 1) a << s[0] << "\n"; }
  { Mute m; rc = calc_bleu((d + "/r").c_str(), (d + "/l").c_str(), bl, bp, bn, 0); }
  if (rc == THOT_OK) c.fail("bleu:length", "%d references with another number of translations scored", n);
  c.count("bad_lengths");
  // ---- the sentences
  MiraBleu bg; double back[10]; for (double& b : back) b = 1;
  for (int i = 0; i < n; ++i) {
    St t = stats(S[i], R[i]), u = t;
    for (double& v : u.v) v += 1;
    mb.sentScore(s[i], r[i], x); unit(c, x, "bleu"); if (!eq(x, bleu(u, true))) c.fail("bleu:sent", "sentence %d scores %.9g, with one added to its counts %.9g", i, x, bleu(u, true));
    mg.sentScore(s[i], r[i], x); unit(c, x, "gtm"); if (!eq(x, f1(t.v[2], S[i].size(), R[i].size()))) c.fail("gtm:sent", "sentence %d scores %.9g instead of %.9g", i, x, f1(t.v[2], S[i].size(), R[i].size()));
    mw.sentScore(s[i], r[i], x); double w = R[i].empty() ? 0 : 1 - lev(S[i], R[i]) / (double)R[i].size(); if (!eq(x, w)) c.fail("wer:sent", "sentence %d scores %.9g instead of %.9g", i, x, w);
    mc.sentScore(s[i], r[i], x); unit(c, x, "chrf"); double h = chrf(S[i], R[i]); if (!eq(x, h, 1e-5)) c.fail("chrf:sent", "sentence %d scores %.9g instead of %.9g", i, x, h);
    if (!eq(cn[i], h, 1e-5)) c.fail("chrf:file", "sentence %d scores %.9g instead of %.9g", i, cn[i], h);
    if (S[i] == R[i] && !R[i].empty()) {
      double q[4]; mb.sentScore(s[i], r[i], q[0]); mg.sentScore(s[i], r[i], q[1]); mw.sentScore(s[i], r[i], q[2]); mc.sentScore(s[i], r[i], q[3]);
      for (double v : q) if (!eq(v, 1)) c.fail("identity", "sentence %d against itself: bleu %.9g gtm %.9g wer %.9g chrf %.9g", i, q[0], q[1], q[2], q[3]);
      c.count("identical_pairs");
    }
    // with the background of the previous ones
    std::vector<unsigned> st(10, 7);
    St v; for (int k = 0; k < 10; ++k) v.v[k] = (unsigned)(t.v[k] + back[k]);
    bg.sentBackgroundScore(s[i], r[i], x, st);
    for (int k = 0; k < 10; ++k) if (st.size() != 10 || st[k] != t.v[k]) c.fail("bleu:stats", "statistic %d of sentence %d", k, i);
    if (!eq(x, bleu(v, true) * v.v[1])) c.fail("bleu:background", "sentence %d scores %.9g with the background instead of %.9g", i, x, bleu(v, true) * v.v[1]);
    std::vector<unsigned> no;
    mg.sentBackgroundScore(s[i], r[i], x, no); if (!eq(x, f1(t.v[2], S[i].size(), R[i].size()) * R[i].size())) c.fail("gtm:background", "sentence %d scores %.9g", i, x);
    mw.sentBackgroundScore(s[i], r[i], x, no); if (!eq(x, w * R[i].size())) c.fail("wer:background", "sentence %d scores %.9g", i, x);
    mc.sentBackgroundScore(s[i], r[i], x, no); if (!eq(x, h * R[i].size(), 1e-5)) c.fail("chrf:background", "sentence %d scores %.9g", i, x);
    double decay = c.rng.chance(.5) ? .999 : c.rng.unit();
    if (c.rng.chance(.1)) { bg.resetBackgroundCorpus(); for (double& b : back) b = 1; }
    else { bg.updateBackgroundCorpus(st, decay); for (int k = 0; k < 10; ++k) back[k] = decay * back[k] + st[k]; }
    c.count("sentences");
  }
  // ---- the order of the sentences does not matter
  std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i);
  c.rng.shuffle(o); VS so, ro; for (int i : o) { so.push_back(s[i]); ro.push_back(r[i]); }
  double y; mb.corpusScore(so, ro, y); if (!eq(corpus, y)) c.fail("order", "bleu %.9g, with the sentences in another order %.9g", corpus, y);
  c.count("corpora");
  c.eval(5 * n + 9);
  if (gm > 0 && ed > 0) c.distinct("n" + std::to_string(n) + "w" + std::to_string((int)words) + "e" + std::to_string((int)ed) + "m" + std::to_string((int)gm));
}

int main(int argc, char** argv) { return run(argc, argv, run_case); }
