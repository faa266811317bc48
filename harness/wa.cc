// LINK: shared
// Word alignment files, their combination, and phrase extraction from them.
#include "vh.h"
#include "WordAligMatrix.h"
#include "AlignmentExtractor.h"
#include "AlignmentContainer.h"
#include "PhraseExtractUtils.h"
#include "PhraseExtractionTable.h"
#include "WbaIncrPhraseModel.h"
#include "IncrPhraseModel.h"
#include <fstream>
#include <iostream>
#include <sys/wait.h>
using namespace vh;
typedef std::vector<std::string> VS;
typedef std::vector<std::vector<unsigned>> M;  // [source][target]

struct Mute { int o; Mute() { fflush(0); o = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Mute() { fflush(0); dup2(o, 2); close(o); } };
static std::string S(const VS& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + x; return r; }
static VS words(const std::string& s) { VS r; std::stringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string show(const M& m) { std::string r; for (auto& x : m) { r += r.empty() ? "" : "/"; for (auto v : x) r += std::to_string(v); } return r; }
static std::string P() { return getenv("VERIF_PREFIX") ? getenv("VERIF_PREFIX") : ""; }
static int sh(Ctx& c, const std::string& cmd) {
  c.note("$ %s", cmd.c_str());
  std::string e = c.scratch + "/stderr";
  int r = system((cmd + " 2>" + e).c_str());
  std::string t = slurp(e);
  if (!WIFEXITED(r) || WEXITSTATUS(r) == 77 || t.find("AddressSanitizer") != std::string::npos || t.find("runtime error:") != std::string::npos)
    c.fail("tool:crash", "%s: %s", cmd.c_str(), t.substr(0, 1500).c_str());
  return WEXITSTATUS(r);
}

// ---------------------------------------------------------------- reference operations
struct R {
  M m; unsigned I, J;
  R(const M& x, unsigned i, unsigned j) : m(x), I(i), J(j) {}
  bool row(unsigned i) const { for (unsigned j = 0; j < J; ++j) if (m[i][j]) return true; return false; }
  bool col(unsigned j) const { for (unsigned i = 0; i < I; ++i) if (m[i][j]) return true; return false; }
  bool at(int i, int j) const { return i >= 0 && j >= 0 && i < (int)I && j < (int)J && m[i][j]; }
};
static M inter(const M& a, const M& b) { M r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) if (!b[i][j]) r[i][j] = 0; return r; }
static M uni(const M& a, const M& b) { M r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) if (a[i][j] || b[i][j]) r[i][j] = 1; return r; }
static M sum(const M& a, const M& b) { M r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) r[i][j] += b[i][j]; return r; }
static M sym(const M& a, const M& b, unsigned J, bool two) {
  R r(inter(a, b), a.size(), J);
  for (bool go = true; go;) {
    go = false;
    for (int i = 0; i < (int)r.I; ++i) for (int j = 0; j < (int)J; ++j) {
      if (r.m[i][j] || !(a[i][j] || b[i][j])) continue;
      bool h = r.at(i, j - 1) || r.at(i, j + 1), v = r.at(i - 1, j) || r.at(i + 1, j);
      if ((!r.row(i) && !r.col(j)) || (two ? h != v : h || v)) { r.m[i][j] = 1; go = true; }
    }
  }
  return r.m;
}
static M grd(const M& a, const M& b, unsigned J) {
  R r(inter(a, b), a.size(), J); M u = uni(a, b);
  for (bool go = true; go;) {
    go = false;
    for (int i = 0; i < (int)r.I; ++i) for (int j = 0; j < (int)J; ++j) if (r.m[i][j])
      for (int di = -1; di <= 1; ++di) for (int dj = -1; dj <= 1; ++dj) {
        int p = i + di, q = j + dj;
        if ((!di && !dj) || p < 0 || q < 0 || p >= (int)r.I || q >= (int)J || !u[p][q]) continue;
        if (!r.row(p) || !r.col(q)) { if (!r.m[p][q]) go = true; r.m[p][q] = 1; }
      }
  }
  for (const M* x : {&a, &b}) for (unsigned i = 0; i < r.I; ++i) for (unsigned j = 0; j < J; ++j) if ((*x)[i][j] && (!r.row(i) || !r.col(j))) r.m[i][j] = 1;
  return r.m;
}
static M op(int k, const M& a, const M& b, unsigned J) { return k == 0 ? inter(a, b) : k == 1 ? uni(a, b) : k == 2 ? sum(a, b) : k == 3 ? sym(a, b, J, false) : k == 4 ? sym(a, b, J, true) : grd(a, b, J); }
static const char* ON[] = {"-and", "-or", "-sum", "-sym1", "-sym2", "-grd"};

static WordAligMatrix mk(const M& m, unsigned J) { WordAligMatrix w; w.init(m.size(), J); for (unsigned i = 0; i < m.size(); ++i) for (unsigned j = 0; j < J; ++j) w.setValue(i, j, m[i][j]); return w; }
static M un(const WordAligMatrix& w) { M m(w.get_I(), std::vector<unsigned>(w.get_J())); for (unsigned i = 0; i < w.get_I(); ++i) for (unsigned j = 0; j < w.get_J(); ++j) m[i][j] = w.getValue(i, j); return m; }
static M tr(const M& m, unsigned J) { M r(J, std::vector<unsigned>(m.size())); for (unsigned i = 0; i < m.size(); ++i) for (unsigned j = 0; j < J; ++j) r[j][i] = m[i][j]; return r; }

struct Al { VS s, t; M m; double reps = 1; std::string head = "# 1"; };
static bool same(const Al& a, const Al& b) { return a.s == b.s && a.t == b.t; }
static std::string giza(const Al& a) {
  std::string r = a.head + "\n" + S(a.t) + "\nNULL ({ ";
  for (size_t j = 0; j < a.t.size(); ++j) { bool al = false; for (auto& x : a.m) if (x[j]) al = true; if (!al) r += std::to_string(j + 1) + " "; }
  r += "}) ";
  for (size_t i = 0; i < a.s.size(); ++i) { r += a.s[i] + " ({ "; for (size_t j = 0; j < a.t.size(); ++j) for (unsigned k = 0; k < a.m[i][j]; ++k) r += std::to_string(j + 1) + " "; r += "}) "; }
  return r + "\n";
}
static void put(const std::string& f, const std::vector<Al>& v) { std::ofstream o(f); for (auto& a : v) o << giza(a); }
static std::vector<Al> read(Ctx& c, const std::string& f) {
  std::vector<Al> r; std::ifstream i(f); std::string h, t, s;
  while (std::getline(i, h)) {
    if (!std::getline(i, t) || !std::getline(i, s)) c.fail("file:truncated", "entry %zu of %s is cut", r.size() + 1, f.c_str());
    Al a; a.head = h; a.t = words(t); VS w = words(s); VS hw = words(h);
    a.reps = hw.size() == 2 ? atof(hw[1].c_str()) : 1;
    std::set<unsigned> nul; size_t k = 0; bool first = true;
    while (k < w.size()) {
      std::string x = w[k++]; if (k >= w.size() || w[k] != "({") c.fail("file:format", "line '%s'", s.c_str()); ++k;
      std::vector<unsigned> row(a.t.size());
      while (k < w.size() && w[k] != "})") { unsigned j = atoi(w[k++].c_str()); if (!j || j > a.t.size()) c.fail("file:position", "position %u in '%s'", j, s.c_str()); if (first) nul.insert(j); else row[j - 1]++; }
      ++k; if (!first) { a.s.push_back(x); a.m.push_back(row); } else if (x != "NULL") c.fail("file:null", "first word is '%s'", x.c_str());
      first = false;
    }
    for (unsigned j = 1; j <= a.t.size(); ++j) { bool al = false; for (auto& x : a.m) if (x[j - 1]) al = true; if (al == (nul.count(j) > 0)) c.fail("file:null-list", "NULL list of '%s' is not the unaligned positions", s.c_str()); }
    r.push_back(a);
  }
  return r;
}
static void cmp(Ctx& c, const std::vector<Al>& got, const std::vector<Al>& want, const std::string& key, bool reps) {
  if (got.size() != want.size()) c.fail(key + ":count", "%zu alignments, %zu expected", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    if (!same(got[i], want[i])) c.fail(key + ":words", "pair %zu is '%s' / '%s', should be '%s' / '%s'", i + 1, S(got[i].s).c_str(), S(got[i].t).c_str(), S(want[i].s).c_str(), S(want[i].t).c_str());
    if (got[i].m != want[i].m) c.fail(key + ":matrix", "pair %zu is %s, should be %s", i + 1, show(got[i].m).c_str(), show(want[i].m).c_str());
    if (reps && !close_enough(got[i].reps, want[i].reps, 1e-5)) c.fail(key + ":reps", "pair %zu counts %g, should count %g", i + 1, got[i].reps, want[i].reps);
    c.eval();
  }
}

static const VS SV = {"casa", "la", "verde", "de", "\xc3\xb1u", "."}, TV = {"house", "the", "green", "of", "x1", "."};
static M genm(Ctx& c, unsigned I, unsigned J) {
  M m(I, std::vector<unsigned>(J)); static const std::vector<double> D = {.08, .2, .35, .6}; double d = c.rng.pick(D); bool big = c.rng.chance(.15), diag = c.rng.chance(.5), fn = c.rng.chance(.3);
  if (fn) { for (unsigned j = 0; j < J && I; ++j) if (c.rng.chance(.85)) m[c.rng.below(I)][j] = 1; return m; }
  for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) {
    double p = diag ? (abs((int)i - (int)j) <= 1 ? d * 1.5 : d * .2) : d;
    if (c.rng.chance(p)) m[i][j] = big ? c.rng.range(1, 3) : 1;
  }
  return m;
}
static VS sent(Ctx& c, const VS& v, int a, int b) { VS r; for (int n = c.rng.range(a, b); n > 0; --n) r.push_back(v[c.rng.below(v.size())]); return r; }
static std::string header(Ctx& c, double& reps) {
  char b[100]; reps = 1;
  switch (c.rng.below(5)) {
    case 0: return "#";
    case 1: sprintf(b, "# Sentence pair (%d) source length 3 target length 4 alignment score : 1e-05", c.rng.range(1, 99)); return b;
    case 2: reps = c.rng.range(1, 40) / 8.; break;
    default: reps = c.rng.range(1, 5);
  }
  sprintf(b, "# %g", reps); return b;
}

static void matrix_ops(Ctx& c) {
  unsigned I = c.rng.below(7), J = c.rng.below(7);
  if (c.rng.chance(.02)) { I = c.rng.below(90); J = c.rng.below(90); c.count("large_matrices"); }
  M a = genm(c, I, J), b = genm(c, I, J), r = a; WordAligMatrix w = mk(a, J); WordAligMatrix o = mk(b, J);
  std::string how; std::vector<int> ks;
  for (int n = c.rng.range(1, 3); n > 0; --n) {
    int k = c.rng.below(8); M pr = r;
    c.note("%s: %s with %s", k < 6 ? ON[k] : k == 6 ? "transpose" : "xor", show(r).c_str(), show(b).c_str());
    if (k == 6) { r = tr(r, J); b = tr(b, J); w.transpose(); o.transpose(); std::swap(I, J); }
    else if (k == 7) { for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) r[i][j] = !r[i][j] != !b[i][j]; w ^= o; }
    else {
      r = op(k, r, b, J);
      switch (k) { case 0: w &= o; break; case 1: w |= o; break; case 2: w += o; break; case 3: w.symmetr1(o); break; case 4: w.symmetr2(o); break; default: w.growDiagFinal(o); }
    }
    if (w.get_I() != I || w.get_J() != J) c.fail("op:size", "%s gave a %ux%u matrix", k < 6 ? ON[k] : "?", w.get_I(), w.get_J());
    M g = un(w);
    if (k < 6) {
      M in = inter(pr, b), un_ = uni(pr, b);
      for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) {
        if (in[i][j] && !g[i][j]) c.fail(std::string("op:lost") + ON[k], "link %u-%u of both alignments is missing: %s", i, j, show(g).c_str());
        if (g[i][j] && !un_[i][j]) c.fail(std::string("op:new") + ON[k], "link %u-%u is in neither alignment: %s", i, j, show(g).c_str());
      }
      R rr(g, I, J);
      if (k == 3 || k == 5) for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) if (un_[i][j] && !rr.row(i) && !rr.col(j)) c.fail(std::string("op:final") + ON[k], "link %u-%u between unaligned words was left out: %s", i, j, show(g).c_str());
    }
    if (g != r) c.fail(std::string("op:matrix") + (k < 6 ? ON[k] : k == 6 ? "transpose" : "xor"), "gives %s, should be %s", show(g).c_str(), show(r).c_str());
    WordAligMatrix cp(w), as; as = w; if (!(cp == w) || !(as == w) || un(cp) != r || un(as) != r) c.fail("op:copy", "a copy differs");
    std::vector<PositionIndex> av; bool fn = true; for (unsigned j = 0; j < J; ++j) { int n1 = 0; for (unsigned i = 0; i < I; ++i) n1 += r[i][j] != 0; if (n1 > 1) fn = false; }
    if (w.getAligVec(av) != fn) c.fail("op:function", "getAligVec says %d", !fn);
    if (fn) { WordAligMatrix z; z.init(I, J); z.putAligVec(av); M zz = r; for (auto& x : zz) for (auto& y : x) y = y != 0; if (av.size() != J || un(z) != zz) c.fail("op:vector", "alignment vector differs"); }
    c.count(std::string("op") + (k < 6 ? ON[k] : k == 6 ? "-transpose" : "-xor")); c.eval(); c.distinct(show(pr) + show(b) + std::to_string(k));
  }
}

// ---------------------------------------------------------------- alignment files
static void files(Ctx& c) {
  unsigned n = c.rng.range(1, 6), mx = 5; std::vector<Al> A;
  if (c.rng.chance(.02)) { n = c.rng.range(1, 60); c.count("long_files"); }
  if (c.rng.chance(.02)) { mx = 60; c.count("long_sentences"); }
  for (unsigned i = 0; i < n; ++i) {
    Al a; a.s = sent(c, SV, c.rng.chance(.05) ? 0 : 1, mx); a.t = sent(c, TV, c.rng.chance(.05) ? 0 : 1, mx); a.head = header(c, a.reps);
    if (i && c.rng.chance(.25)) { a.s = A[c.rng.below(i)].s; a.t = A[c.rng.below(i)].t; }
    if (i && c.rng.chance(.15)) { auto& z = A[c.rng.below(i)]; a.s = z.s; a.t = z.t; }
    a.m = genm(c, a.s.size(), a.t.size()); A.push_back(a);
  }
  bool notr = c.rng.chance(.3), ex = c.rng.chance(.3), comp = ex && c.rng.chance(.5), gt = c.rng.chance(.25), chain = c.rng.chance(.35);
  bool api = !c.rng.chance(.25); if (api) gt = false;
  bool par = !api && c.rng.chance(.2); if (par) notr = ex = comp = gt = chain = false;
  int nop = chain ? c.rng.range(1, 3) : 1;
  std::string fa = c.scratch + "/a.A3", out = c.scratch + "/o";
  if (!api && c.rng.chance(.15)) { out = c.scratch; for (int k = 0; k < 2; ++k) { out += "/" + std::string(140, 'd'); mkdir(out.c_str(), 0777); } fa = out + "/a.A3"; out += "/o"; c.count("long_names"); }
  unlink((out + ".A3.final").c_str());
  put(fa, A);
  // with -gt, the alignments of the file are taken transposed
  std::vector<Al> cur = A; if (gt) for (auto& a : cur) { a.m = tr(a.m, a.t.size()); std::swap(a.s, a.t); }
  std::vector<Al> base = cur;
  // reference of the exhaustive mode: one entry per different sentence pair, the first of its alignments
  std::vector<Al> uniq; std::vector<int> uc;
  for (auto& a : cur) { bool f = false; for (size_t i = 0; i < uniq.size(); ++i) if (same(uniq[i], a)) { uc[i]++; f = true; break; } if (!f) { uniq.push_back(a); uc.push_back(1); } }
  std::vector<std::string> fb; std::vector<int> ks; std::vector<bool> tp;
  for (int q = 0; q < nop; ++q) {
    std::vector<Al> B; bool nt = chain && !api ? c.rng.chance(.5) : chain ? c.rng.chance(.5) : notr;
    for (auto& a : base) {
      Al b = a; b.m = genm(c, a.s.size(), a.t.size()); b.head = header(c, b.reps);
      if (c.rng.chance(.06)) { b.s = sent(c, SV, 1, 4); b.m = genm(c, b.s.size(), b.t.size()); }
      B.push_back(b);
    }
    if (c.rng.chance(.1) && !par) B.pop_back();
    if (ex && c.rng.chance(.5)) c.rng.shuffle(B);
    int k = c.rng.below(6); ks.push_back(k); tp.push_back(!nt);
    std::vector<Al> W = B; if (!nt) for (auto& b : W) { b.m = tr(b.m, b.t.size()); std::swap(b.s, b.t); }
    std::string f = c.scratch + "/b" + std::to_string(q) + ".A3"; put(f, W); fb.push_back(f);
    if (ex) { for (auto& b : B) for (auto& u : uniq) if (same(u, b)) u.m = op(k, u.m, b.m, u.t.size()); }
    else {
      std::vector<Al> nx; for (size_t i = 0; i < cur.size() && i < B.size(); ++i) { Al z = cur[i]; if (same(z, B[i])) z.m = op(k, z.m, B[i].m, z.t.size()); else c.count("mismatches"); nx.push_back(z); }
      cur = nx;
    }
  }
  std::vector<Al> want;
  if (!ex) want = cur;
  else if (comp) {
    for (size_t i = 0; i < uniq.size(); ++i) { Al z = uniq[i]; z.reps = uc[i]; want.push_back(z); }
  } else for (auto& a : base) for (auto& u : uniq) if (same(a, u)) { Al z = u; z.reps = 1; want.push_back(z); }
  std::string key = std::string(ex ? comp ? "compact" : "exhaustive" : "sequential") + (api ? "" : par ? ":parallel" : ":tool");
  c.note("files: %u pairs, %d operations%s%s%s%s", n, nop, ex ? " -e" : "", comp ? " -compact" : "", gt ? " -gt" : "", api ? "" : " (tool)");
  std::vector<Al> got;
  if (api) {
    Mute mu;
    if (ex) {
      AlignmentContainer ac; if (ac.extractAlignmentsFromGIZAFile(fa.c_str(), false) == THOT_ERROR) c.fail("open", "file not read");
      for (int q = 0; q < nop; ++q) { const char* f = fb[q].c_str(); bool t = tp[q]; switch (ks[q]) { case 0: ac.intersect(f, t); break; case 1: ac.join(f, t); break; case 2: ac.sum(f, t); break; case 3: ac.symmetr1(f, t); break; case 4: ac.symmetr2(f, t); break; default: ac.growDiagFinal(f, t); } }
      std::ofstream o(out + ".A3.final"); if (comp) o << ac; else ac.printNoCompact(o);
    } else {
      std::string in = fa, rf;
      for (int q = 0; q < nop; ++q) {
        AlignmentExtractor x; if (x.open(in.c_str()) == THOT_ERROR) c.fail("open", "file not read");
        rf = q + 1 == nop ? out + ".A3.final" : c.scratch + "/r" + std::to_string(q);
        const char *f = fb[q].c_str(), *r = rf.c_str(); bool t = tp[q], v = c.rng.chance(.3);
        switch (ks[q]) { case 0: x.intersect(f, r, t, v); break; case 1: x.join(f, r, t, v); break; case 2: x.sum(f, r, t, v); break; case 3: x.symmetr1(f, r, t, v); break; case 4: x.symmetr2(f, r, t, v); break; default: x.growDiagFinal(f, r, t, v); }
        in = rf;
      }
    }
  } else {
    std::string cmd = P() + "/bin/thot_alig_op " + (gt ? "-gt " : "-g ") + fa + " -o " + out + (ex ? " -e" : "") + (comp ? " -compact" : "");
    if (par) { cmd = P() + "/bin/thot_pbs_alig_op -pr " + std::to_string(c.rng.range(1, n)) + " -g " + fa + " " + ON[ks[0]] + " " + fb[0] + " -o " + out + " -T " + c.scratch + " -sdir " + c.scratch; c.count("parallel_runs"); }
    else if (chain) { std::ofstream o(c.scratch + "/ops"); for (int q = 0; q < nop; ++q) o << ON[ks[q]] << " " << fb[q] << " " << tp[q] << "\n"; cmd += " -f " + c.scratch + "/ops"; }
    else cmd += std::string(" ") + ON[ks[0]] + " " + fb[0] + (tp[0] ? "" : " -no-transpose");
    int r = sh(c, cmd); if (r) c.fail("tool:status", "thot_alig_op ended with %d", r);
    c.count("tool_runs");
  }
  got = read(c, out + ".A3.final");
  if (comp) { auto lt = [](const Al& a, const Al& b) { return std::make_pair(a.t, a.s) < std::make_pair(b.t, b.s); }; std::sort(got.begin(), got.end(), lt); std::sort(want.begin(), want.end(), lt); }
  cmp(c, got, want, key, !ex || comp);
  got = read(c, out + ".A3.final");
  c.count(ex ? "exhaustive_files" : "sequential_files"); if (gt) c.count("transposed_files");
  c.distinct(slurp(out + ".A3.final"));
  // reading what was written
  {
    Mute mu; AlignmentExtractor x; x.open((out + ".A3.final").c_str()); size_t i = 0;
    for (int pass = 0; pass < 2; ++pass) {
      for (i = 0; x.getNextAlignment(); ++i) {
        if (i >= got.size()) c.fail("read:extra", "more alignments than entries");
        auto ns = x.get_ns(); auto s = x.get_s();
        if (s != got[i].s || ns.size() != s.size() + 1 || x.get_t() != got[i].t || un(x.get_wamatrix()) != got[i].m) c.fail("read:alignment", "entry %zu read as '%s' / '%s' %s", i + 1, S(x.get_s()).c_str(), S(x.get_t()).c_str(), show(un(x.get_wamatrix())).c_str());
        if (!close_enough(x.get_numReps(), got[i].reps, 1e-5)) c.fail("read:reps", "entry %zu counts %g", i + 1, x.get_numReps());
        c.count("entries_read"); c.eval();
      }
      if (i != got.size()) c.fail("read:missing", "%zu of %zu alignments read", i, got.size());
      x.rewind();
    }
  }
}

// ---------------------------------------------------------------- phrase extraction
struct Pars { int maxlen = 7; bool mono = false, srclen = false, spur = true; };
struct Ex { unsigned l, r, y1, y2; double w; bool operator<(const Ex& o) const { return std::tie(l, r, y1, y2) < std::tie(o.l, o.r, o.y1, o.y2); } };

// the consistent phrase pairs of an alignment: a target segment, and a source segment made of the words aligned with it, the unaligned words
// between them, and possibly the unaligned words next to them
static std::vector<Ex> consistent(const M& m, unsigned J, const Pars& p, uint64_t* work = nullptr) {
  unsigned I = m.size(); std::vector<bool> sal(I), tal(J);
  for (unsigned i = 0; i < I; ++i) for (unsigned j = 0; j < J; ++j) if (m[i][j]) sal[i] = tal[j] = true;
  typedef std::vector<bool> B; std::vector<std::vector<B>> opt(J);
  for (unsigned j = 0; j < J; ++j) {
    B b(I); int lo = -1, hi = -1;
    for (unsigned i = 0; i < I; ++i) if (m[i][j]) { b[i] = true; if (lo < 0) lo = i; hi = i; }
    if (lo >= 0) for (int i = lo; i <= hi; ++i) if (!sal[i]) b[i] = true;
    opt[j].push_back(b);
    if (lo >= 0) {
      B x = b; int k = lo; while (k > 0 && !sal[k - 1]) x[--k] = true; if (k != lo) opt[j].push_back(x);
      x = b; k = hi; while (k + 1 < (int)I && !sal[k + 1]) x[++k] = true; if (k != hi) opt[j].push_back(x);
    }
  }
  std::vector<Ex> res;
  for (unsigned y1 = 0; y1 < J; ++y1) {
    std::set<B> cur{B(I)};
    for (unsigned y2 = y1; y2 < J; ++y2) {
      std::set<B> nx; for (auto& x : cur) for (auto& o : opt[y2]) { B z = x; for (unsigned i = 0; i < I; ++i) if (o[i]) z[i] = true; nx.insert(z); if (work) ++*work; }
      cur.swap(nx);
      unsigned len = 0; for (unsigned y = y1; y <= y2; ++y) len += p.spur || tal[y];
      if (len > (unsigned)p.maxlen) continue;
      for (auto& x : cur) {
        int lo = -1, hi = -1, n = 0; for (unsigned i = 0; i < I; ++i) if (x[i]) { if (lo < 0) lo = i; hi = i; ++n; }
        if (!n || hi - lo + 1 != n) continue;
        if (p.srclen && n > p.maxlen) continue;
        bool whole = y1 == 0 && y2 + 1 == J;
        if (whole && n != (int)I) continue;  // the whole target sentence goes with the whole source sentence
        bool ok = true;
        for (unsigned j = 0; j < J && ok && !whole; ++j) if (j < y1 || j > y2) for (unsigned i = 0; i < I; ++i) if (m[i][j]) {
          if (x[i]) ok = false;
          else if (p.mono) { if ((int)i < lo) { if (j > y2) ok = false; } else if (j < y1) ok = false; }
        }
        if (!ok) continue;
        double w = 0; int k = 0; for (unsigned i = lo; (int)i <= hi; ++i) for (unsigned j = y1; j <= y2; ++j) { w += m[i][j]; k += m[i][j] > 0; }
        res.push_back({(unsigned)lo, (unsigned)hi, y1, y2, w / k});
      }
    }
  }
  std::sort(res.begin(), res.end());
  return res;
}
// relative frequency of each pair among the segmentations of the sentence pair into consistent pairs
static bool bisegm(const std::vector<Ex>& e, unsigned I, unsigned J, std::map<Ex, double>& f, uint64_t lim) {
  std::vector<std::vector<Ex>> by(I); for (auto& x : e) by[x.l].push_back(x);
  std::vector<Ex> st; std::vector<bool> tc(J); std::map<Ex, uint64_t> n; uint64_t tot = 0, work = 0;
  std::function<bool(unsigned, unsigned)> go = [&](unsigned i, unsigned left) -> bool {
    if (++work > lim) return false;
    if (i == I) { if (!left) { tot++; for (auto& x : st) n[x]++; } return true; }
    for (auto& x : by[i]) {
      bool ok = true; for (unsigned y = x.y1; y <= x.y2; ++y) if (tc[y]) ok = false;
      if (!ok) continue;
      for (unsigned y = x.y1; y <= x.y2; ++y) tc[y] = true;
      st.push_back(x); bool z = go(x.r + 1, left - (x.y2 - x.y1 + 1)); st.pop_back();
      for (unsigned y = x.y1; y <= x.y2; ++y) tc[y] = false;
      if (!z) return false;
    }
    return true;
  };
  if (!go(0, J)) return false;
  for (auto& x : n) f[x.first] = (double)x.second / tot;
  return true;
}
typedef std::map<std::pair<VS, VS>, double> Cnt;
static bool strict_ok(const VS& s, const VS& t) { for (const VS* v : {&s, &t}) for (auto& w : *v) if (w == "<digit>" || w == "<number>" || w == "<alfanum>") return s == t; return true; }
static bool loose_ok(const VS& s, const VS& t) { for (const char* k : {"<digit>", "<number>", "<alfanum>"}) if (std::count(s.begin(), s.end(), k) != std::count(t.begin(), t.end(), k)) return false; return true; }

struct Pair { Al a; std::vector<Ex> rf, brf; bool bok = false; };
static bool expect(Ctx& c, Pair& q, const Pars& p, bool brf) {
  unsigned I = q.a.s.size(), J = q.a.t.size(); q.rf.clear(); q.brf.clear(); q.bok = true;
  if (I >= MAX_SENTENCE_LENGTH || J >= MAX_SENTENCE_LENGTH) return true;
  q.rf = consistent(q.a.m, J, p);
  if (brf) { std::map<Ex, double> f; if (!bisegm(q.rf, I, J, f, c.thorough ? 2000000 : 300000)) return q.bok = false; for (auto& x : f) { Ex e = x.first; e.w = x.second; q.brf.push_back(e); } }
  return true;
}
static void cmppairs(Ctx& c, const Pair& q, const std::vector<Ex>& want, std::vector<PhrasePair> got, const std::string& key, double tol) {
  auto str = [&](const VS& s, const VS& t, double w) { char b[40]; snprintf(b, 40, " (%.6g)", w); return S(s) + " ||| " + S(t) + b; };
  std::map<std::pair<VS, VS>, std::vector<double>> W, G;
  for (auto& e : want) W[{VS(q.a.s.begin() + e.l, q.a.s.begin() + e.r + 1), VS(q.a.t.begin() + e.y1, q.a.t.begin() + e.y2 + 1)}].push_back(e.w);
  for (auto& g : got) G[{g.s_, g.t_}].push_back(g.weight);
  for (auto& g : G) { if (!W.count(g.first)) c.fail(key + ":inconsistent", "extracted %s", str(g.first.first, g.first.second, g.second[0]).c_str()); }
  for (auto& w : W) {
    auto g = G.find(w.first); if (g == G.end()) c.fail(key + ":missed", "not extracted: %s", str(w.first.first, w.first.second, w.second[0]).c_str());
    if (g->second.size() != w.second.size()) c.fail(key + ":times", "%s extracted %zu times, occurs %zu", str(w.first.first, w.first.second, w.second[0]).c_str(), g->second.size(), w.second.size());
    auto a = g->second, b = w.second; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    for (size_t i = 0; i < a.size(); ++i) if (!close_enough(a[i], b[i], tol)) c.fail(key + ":weight", "%s has weight %.8g", str(w.first.first, w.first.second, b[i]).c_str(), a[i]);
    c.eval(); c.count("phrase_pairs");
  }
}
static void add(Cnt& n, const Pair& q, const std::vector<Ex>& e, double reps, int filt) {
  for (auto& x : e) { VS s(q.a.s.begin() + x.l, q.a.s.begin() + x.r + 1), t(q.a.t.begin() + x.y1, q.a.t.begin() + x.y2 + 1); if (filt == 1 ? loose_ok(s, t) : filt == 2 ? strict_ok(s, t) : true) n[{s, t}] += (double)(float)(reps * x.w); }
}
static Cnt ttable(Ctx& c, const std::string& f, std::map<VS, double>* cs = nullptr, const std::string& key = "ttable") {
  Cnt n; std::ifstream i(f); std::string l;
  if (!i) c.fail(key + ":missing", "no file %s", f.c_str());
  while (std::getline(i, l)) {
    VS w = words(l), p[3]; int k = 0; for (auto& x : w) { if (x == "|||") { if (++k > 2) break; } else p[k].push_back(x); }
    if (k != 2 || p[2].size() != 2 || p[0].empty() || p[1].empty()) c.fail(key + ":line", "line '%s'", l.c_str());
    if (n.count({p[0], p[1]})) c.fail(key + ":repeated", "two entries for '%s'", l.c_str());
    n[{p[0], p[1]}] = atof(p[2][1].c_str());
    if (cs) { double v = atof(p[2][0].c_str()); if (cs->count(p[0]) && !close_enough((*cs)[p[0]], v, 1e-5)) c.fail(key + ":source-count", "two counts of '%s'", S(p[0]).c_str()); (*cs)[p[0]] = v; }
  }
  return n;
}
static void cmptable(Ctx& c, const Cnt& n, const std::string& f, const std::string& key, double cut = -1, double abs_ = 2e-8) {
  std::map<VS, double> cs, ws; Cnt g = ttable(c, f, &cs, key); for (auto& x : n) ws[x.first.first] += x.second;
  size_t k = 0; auto nm = [](const std::pair<VS, VS>& p) { return S(p.first) + " ||| " + S(p.second); };
  for (auto& x : n) {
    double s = ws[x.first.first]; bool near = cut >= 0 && fabs(s - cut) < 1e-4 * (1 + s);
    if (near) { if (g.count(x.first)) ++k; continue; }
    if (cut >= 0 && s <= cut) { if (g.count(x.first)) c.fail(key + ":cutoff", "%s is below the cutoff %g", nm(x.first).c_str(), cut); continue; }
    auto i = g.find(x.first); if (i == g.end()) c.fail(key + ":absent", "no entry for %s (%.8g)", nm(x.first).c_str(), x.second);
    if (!close_enough(i->second, x.second, 1e-4, abs_)) c.fail(key + ":count", "%s has count %.9g, should be %.9g", nm(x.first).c_str(), i->second, x.second);
    if (!close_enough(cs[x.first.first], s, 1e-4, abs_ * 10)) c.fail(key + ":total", "'%s' has count %.9g, should be %.9g", S(x.first.first).c_str(), cs[x.first.first], s);
    ++k; c.eval(); c.count("table_entries");
  }
  if (k != g.size()) for (auto& x : g) if (!n.count(x.first)) c.fail(key + ":extra", "entry %s (%.8g) comes from nowhere", nm(x.first).c_str(), x.second);
}
static void cmpmodel(Ctx& c, _incrPhraseModel& pm, const Cnt& n, const std::string& key) {
  std::map<VS, double> ws, wt; for (auto& x : n) { ws[x.first.first] += x.second; wt[x.first.second] += x.second; }
  for (auto& x : n) {
    double a = (double)(float)pm.cHSrcHTrg(x.first.first, x.first.second), b = (float)pm.cHSrc(x.first.first), d = (float)pm.cHTrg(x.first.second), s = ws[x.first.first], t = wt[x.first.second];
    if (!close_enough(a, x.second, 1e-4)) c.fail(key + ":count", "count of %s ||| %s is %.8g, should be %.8g", S(x.first.first).c_str(), S(x.first.second).c_str(), a, x.second);
    if (!close_enough(b, s, 1e-4)) c.fail(key + ":source", "count of source '%s' is %.8g, should be %.8g", S(x.first.first).c_str(), b, s);
    if (!close_enough(d, t, 1e-4)) c.fail(key + ":target", "count of target '%s' is %.8g, should be %.8g", S(x.first.second).c_str(), d, t);
    std::vector<WordIndex> si = pm.strVectorToSrcIndexVector(x.first.first), ti = pm.strVectorToTrgIndexVector(x.first.second);
    double p = pm.logpt_s_(si, ti), q = pm.logps_t_(si, ti);
    if (!close_enough(p, std::max(log(x.second / s), LOG_PHRASE_PROB_SMOOTH), 1e-3, 1e-3)) c.fail(key + ":p(t|s)", "log p(%s | %s) is %.8g, should be %.8g", S(x.first.second).c_str(), S(x.first.first).c_str(), p, log(x.second / s));
    if (!close_enough(q, std::max(log(x.second / t), LOG_PHRASE_PROB_SMOOTH), 1e-3, 1e-3)) c.fail(key + ":p(s|t)", "log p(%s | %s) is %.8g, should be %.8g", S(x.first.first).c_str(), S(x.first.second).c_str(), q, log(x.second / t));
    c.eval(); c.count("model_entries");
  }
}

static void extraction(Ctx& c) {
  Pars p; p.maxlen = c.rng.chance(.2) ? MAX_SENTENCE_LENGTH : c.rng.range(1, 7); p.mono = c.rng.chance(.2); p.srclen = c.rng.chance(.25); p.spur = !c.rng.chance(.2);
  bool brf = c.rng.chance(.4), tools = c.rng.chance(.12), par = tools && c.rng.chance(.25);
  if (tools) { p.srclen = false; p.spur = true; if (par) p.mono = c.rng.chance(.3); }
  unsigned n = tools ? c.rng.range(1, 8) : c.rng.range(1, 4);
  std::vector<Pair> ps; VS sv = SV, tv = TV; if (c.rng.chance(.25)) for (const char* k : {"<digit>", "<number>", "<alfanum>"}) { sv.push_back(k); tv.push_back(k); }
  for (unsigned i = 0; i < n; ++i) {
    Pair q; bool lng = c.rng.chance(.01);
    int lo = c.rng.chance(.04) ? 0 : 1, hi = brf ? 5 : 7;
    q.a.s = sent(c, sv, lo, hi); q.a.t = sent(c, tv, c.rng.chance(.04) ? 0 : 1, hi); q.a.head = header(c, q.a.reps);
    if (lng) { int L = c.rng.range(97, 103); q.a.s = sent(c, sv, L - 2, L); q.a.t = sent(c, tv, L - 2, L); }
    q.a.m = genm(c, q.a.s.size(), q.a.t.size());
    if (lng) { for (auto& x : q.a.m) for (auto& y : x) y = 0; for (unsigned j = 0; j < q.a.t.size(); ++j) q.a.m[std::min<int>(j, q.a.s.size() - 1)][j] = 1; c.count("long_sentences"); }
    if (lng && brf) continue;
    if (!expect(c, q, p, brf)) { c.count("too_many_segmentations"); continue; }
    ps.push_back(q);
  }
  if (ps.empty()) return;
  PhraseExtractParameters pp; pp.maxTrgPhraseLength = p.maxlen; pp.monotone = p.mono; pp.constraintSrcLen = p.srclen; pp.countSpurious = p.spur; pp.maxNumbOfCombsInTable = 1000000;
  c.note("maxlen %d%s%s%s%s", p.maxlen, p.mono ? " monotone" : "", p.srclen ? " source too" : "", p.spur ? "" : " spurious not counted", brf ? " brf" : "");
  for (auto& q : ps) if (q.a.t.size() < 20) c.note("%s | %s | %s", S(q.a.s).c_str(), S(q.a.t).c_str(), show(q.a.m).c_str());
  Cnt nt, nw; for (auto& q : ps) { add(nt, q, brf ? q.brf : q.rf, q.a.reps, 2); add(nw, q, brf ? q.brf : q.rf, q.a.reps, brf ? 0 : 1); }
  std::string f = c.scratch + "/e.A3"; { std::vector<Al> v; for (auto& q : ps) v.push_back(q.a); put(f, v); }
  bool lng = false; for (auto& q : ps) if (q.a.s.size() > 20) lng = true;
  if (lng && tools) return;
  if (!tools) {
    Mute mu;
    PhraseExtractionTable tab;
    for (auto& q : ps) {
      VS ns = q.a.s; ns.insert(ns.begin(), "NULL"); WordAligMatrix w = mk(q.a.m, q.a.t.size()); std::vector<PhrasePair> v, v2;
      if (brf) { PhraseExtractUtils::extractPhrasesFromPairPlusAligBrf(pp, ns, q.a.t, w, v, 0); tab.segmBasedExtraction(pp, ns, q.a.t, w, v2); }
      else { PhraseExtractUtils::extractPhrasesFromPairPlusAlig(pp, ns, q.a.t, w, v, 0); tab.extractConsistentPhrases(pp, ns, q.a.t, w, v2); }
      cmppairs(c, q, brf ? q.brf : q.rf, v, brf ? "brf" : "rf", 2e-3);
      cmppairs(c, q, brf ? q.brf : q.rf, v2, brf ? "brf-again" : "rf-again", 2e-3);
      if (!brf && q.a.s.size() < 50) {
        // a pair with the words themselves, without those around, is extracted whenever it is consistent
        c.count("sentence_pairs"); c.maxi("max_phrase_pairs", v.size());
      }
      if (brf) c.count("segmented_pairs");
      c.distinct(S(q.a.s) + "|" + show(q.a.m) + std::to_string(p.maxlen * 16 + p.mono * 8 + p.srclen * 4 + p.spur * 2 + brf));
    }
    if (lng && p.maxlen > 3) return;
    WbaIncrPhraseModel pm; unsigned cut = c.rng.below(ps.size() + 1);
    if (c.rng.chance(.5)) { if (pm.generateWbaIncrPhraseModel(f.c_str(), pp, brf, 0) == THOT_ERROR) c.fail("wba:error", "model not generated"); }
    else {
      // the same in two steps
      std::vector<Al> v1, v2; for (size_t i = 0; i < ps.size(); ++i) (i < cut ? v1 : v2).push_back(ps[i].a);
      put(c.scratch + "/e1", v1); put(c.scratch + "/e2", v2);
      pm.generateWbaIncrPhraseModel((c.scratch + "/e1").c_str(), pp, brf, 0); pm.extendModel((c.scratch + "/e2").c_str(), pp, brf, 0); c.count("two_steps");
    }
    cmpmodel(c, pm, nw, "wba");
    std::string o = c.scratch + "/m"; if (pm.print(o.c_str()) == THOT_ERROR) c.fail("wba:print", "not printed");
    cmptable(c, nw, o + ".ttable", "wba-file");
    IncrPhraseModel lm; if (lm.load(o.c_str()) == THOT_ERROR) c.fail("load:error", "not loaded");
    Cnt r = ttable(c, o + ".ttable"); bool tiny = false; for (auto& x : r) if (x.second <= 0) tiny = true;
    if (!tiny) { cmpmodel(c, lm, r, "loaded"); c.count("loaded_models"); }
  } else {
    std::string o = c.scratch + "/g"; for (const char* x : {".ttable", ".seglentable"}) unlink((o + x).c_str());
    std::string opt = " -g " + f + " -o " + o + (p.maxlen < MAX_SENTENCE_LENGTH || par ? " -m " + std::to_string(p.maxlen) : "") + (p.mono ? " -mon" : "") + (brf ? " -brf" : "");
    double cut = -1; int r;
    if (par) {
      if (c.rng.chance(.4)) { cut = c.rng.range(1, 3) + .25; opt += " -c " + std::to_string(cut); }
      r = sh(c, P() + "/bin/thot_pbs_gen_phr_model -pr " + std::to_string(c.rng.range(1, std::min<int>(3, ps.size()))) + opt + " -T " + c.scratch + " -sdir " + c.scratch); c.count("parallel_estimations");
    } else { r = sh(c, P() + "/bin/thot_gen_phr_model" + opt + (c.rng.chance(.2) ? " -v" : "")); c.count("tool_estimations"); }
    if (r) c.fail("tool:status", "ended with %d: %s", r, slurp(c.scratch + "/stderr").substr(0, 600).c_str());
    cmptable(c, nt, o + ".ttable", par ? "parallel" : "tool", cut < 0 && par ? 0 : cut, par ? 1e-7 : 2e-8);
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, [](Ctx& c) {
    if (c.mode == "alig") { if (c.rng.chance(.5)) matrix_ops(c); else files(c); }
    else extraction(c);
  });
}
