// LINK: shared
// Translation constraints given with a sentence: what the XML and JSON notations mean, and
// what the decoder makes of them.
#include "decsearch.h"
#include "TranslationMetadata.h"
#include "JsonTranslationMetadata.h"

typedef BaseTranslationMetadata<SmtModel::HypScoreInfo> TMeta;
typedef std::map<std::pair<unsigned, unsigned>, VS> Cons;

static const char* A = "<phr_pair_annot>"; static const char* EA = "</phr_pair_annot>";
static const char* SS = "<src_segm>"; static const char* ES = "</src_segm>";
static const char* TT = "<trg_segm>"; static const char* ET = "</trg_segm>";
static const char* TAGS[] = {A, EA, SS, ES, TT, ET};

static const VS POOL = {"a", "b", "c", "a", "b", "dd", "<", ">", "<x>", "<src_segm", "src_segm>", "&lt;", "\"", "\\", "|||", "1,2", "\xc3\xb1", "\xe2\x82\xac", "{", "</b>", "<<", ":", "[1]"};

static std::string show(const Cons& c) { std::string o; for (auto& k : c) o += " " + std::to_string(k.first.first) + "-" + std::to_string(k.first.second) + "->'" + S(k.second) + "'"; return o; }

// the meaning of an annotated sentence
static void readxml(const std::string& s, VS& src, Cons& cons) {
  std::string t;
  for (size_t i = 0; i < s.size();) {
    bool hit = false;
    for (auto g : TAGS) if (s.compare(i, strlen(g), g) == 0) { t += std::string(" ") + g + " "; i += strlen(g); hit = true; break; }
    if (!hit) { t += s[i] == '\t' ? ' ' : s[i]; ++i; }
  }
  VS w = W(t);
  for (size_t i = 0; i < w.size();) {
    auto run = [&](size_t& k, const char* b, const char* e, VS& o) {
      if (k >= w.size() || w[k] != b) return false;
      size_t x = k + 1;
      while (x < w.size() && w[x] != e) o.push_back(w[x++]);
      if (x >= w.size() || o.empty()) return false;
      k = x + 1;
      return true;
    };
    VS a, b;
    size_t k = i + 1;
    if (w[i] == A && run(k, SS, ES, a) && run(k, TT, ET, b) && k < w.size() && w[k] == EA) {
      cons[{src.size() + 1, src.size() + a.size()}] = b;
      src.insert(src.end(), a.begin(), a.end());
      i = k + 1;
    } else src.push_back(w[i++]);
  }
}

static std::string gap(Ctx& c, bool must) { static const VS g = {" ", " ", " ", "  ", "\t", " \t "}; return must || c.rng.chance(.6) ? c.rng.pick(g) : ""; }

static std::string writexml(Ctx& c, const VS& src, const Cons& cons) {
  std::string o;
  if (c.rng.chance(.1)) o += " ";
  for (unsigned i = 1; i <= src.size();) {
    const Cons::value_type* k = nullptr;
    for (auto& x : cons) if (x.first.first == i) k = &x;
    if (k) {
      auto part = [&](const char* b, const VS& v, const char* e) { o += b + gap(c, false); for (size_t j = 0; j < v.size(); ++j) o += (j ? gap(c, true) : "") + v[j]; o += gap(c, false) + e + gap(c, false); };
      o += std::string(A) + gap(c, false);
      part(SS, VS(src.begin() + i - 1, src.begin() + k->first.second), ES);
      part(TT, k->second, ET);
      o += std::string(EA) + gap(c, false);
      i = k->first.second + 1;
    } else {
      o += src[i - 1];
      bool next = false;
      for (auto& x : cons) if (x.first.first == i + 1) next = true;
      ++i;
      o += gap(c, !next && i <= src.size());
    }
  }
  return o;
}

static std::string jstr(Ctx& c, const std::string& s) {
  std::string o = "\"";
  for (unsigned char x : s) {
    if (x == '"' || x == '\\') { o += '\\'; o += x; }
    else if (x == '\t') o += "\\t";
    else if (x == '/' && c.rng.chance(.5)) o += "\\/";
    else if (x < 127 && c.rng.chance(.03)) { char b[8]; snprintf(b, 8, "\\u%04x", x); o += b; }
    else o += x;
  }
  return o + "\"";
}
static std::string ann(Ctx& c, const VS& a, const VS& b) {
  auto sp = [&](const VS& v) { std::string o; if (c.rng.chance(.1)) o += " "; for (size_t j = 0; j < v.size(); ++j) o += (j ? gap(c, true) : "") + v[j]; return o; };
  std::string x = "\"original\": " + jstr(c, sp(a)), y = "\"translation\":" + jstr(c, sp(b));
  if (c.rng.chance(.5)) std::swap(x, y);
  return "{" + x + ", " + y + (c.rng.chance(.2) ? ", \"id\": [1, {\"x\": null}]" : "") + "}";
}
static std::string writejson(Ctx& c, const VS& src, const std::vector<std::string>& ann, bool seg = true) {
  std::string s; for (size_t j = 0; j < src.size(); ++j) s += (j ? gap(c, true) : "") + src[j];
  std::string x = "\"src_title\": {\"preprocessed\": " + jstr(c, s) + (c.rng.chance(.2) ? ", \"raw\": \"x\"" : "") + "}", y = "\"tex_segmentation\": [";
  for (size_t i = 0; i < ann.size(); ++i) y += (i ? "," : "") + ann[i];
  y += "]";
  if (!seg) return "{" + x + "}";
  if (c.rng.chance(.5)) std::swap(x, y);
  return "{" + x + " ," + y + "}";
}

static Cons randcons(Ctx& c, unsigned n, const std::function<VS()>& trg, double p = .35) {
  Cons k;
  for (unsigned i = 1; i <= n;) {
    if (c.rng.chance(p)) { unsigned e = std::min<unsigned>(n, i + (c.rng.chance(.5) ? 0 : c.rng.below(4))); k[{i, e}] = trg(); i = e + 1; }
    else ++i;
  }
  return k;
}

// the services of the metadata object against the constraints it should hold
static void agree(Ctx& c, TMeta& m, const VS& src, const Cons& cons, const char* what) {
  std::string K = std::string(what) + ":";
  VS v = m.getSrcSentVec();
  if (v != src) c.fail(K + "source", "the source sentence is '%s', expected '%s'", S(v).c_str(), S(src).c_str());
  auto got = m.getConstrainedSrcPhrases();
  std::string gs; for (auto& k : got) gs += " " + std::to_string(k.first) + "-" + std::to_string(k.second) + "->'" + S(m.getTransForSrcPhr(k)) + "'";
  if (got.size() != cons.size()) c.fail(K + "constraints", "constraints%s, expected%s", gs.c_str(), show(cons).c_str());
  for (unsigned l = 1; l <= src.size() + 1; ++l)
    for (unsigned r = l; r <= src.size() + 1; ++r) {
      auto k = cons.find({l, r});
      VS t = m.getTransForSrcPhr({l, r});
      if (t != (k == cons.end() ? VS() : k->second)) c.fail(K + "translation", "%u-%u is translated '%s', expected '%s'", l, r, S(t).c_str(), k == cons.end() ? "" : S(k->second).c_str());
      bool a = false; for (auto& x : cons) if (l <= x.first.second && r >= x.first.first) a = true;
      if (m.srcPhrAffectedByConstraint({l, r}) != a) c.fail(K + "affected", "%u-%u: affected %d, expected %d (%s)", l, r, !a, a, show(cons).c_str());
    }
  c.count("constraints_read", cons.size());
  if (src.empty()) return;
  // complete translations, most of them made to satisfy the constraints; then their beginnings
  for (int rep = 0; rep < 6; ++rep) {
    std::vector<std::pair<unsigned, unsigned>> segs;
    for (unsigned i = 1; i <= src.size();) {
      unsigned e = std::min<unsigned>(src.size(), i + c.rng.below(3));
      for (auto& x : cons) {
        if (x.first.first == i && c.rng.chance(.9)) e = x.first.second;
        else if (x.first.first > i && x.first.first <= e && c.rng.chance(.9)) e = x.first.first - 1;
      }
      segs.push_back({i, e}); i = e + 1;
    }
    if (c.rng.chance(.5)) c.rng.shuffle(segs);
    SourceSegmentation sg; std::vector<PositionIndex> cuts; VS t;
    std::vector<VS> tr;
    for (auto& s : segs) {
      VS x;
      auto k = cons.find(s);
      if (k != cons.end() && c.rng.chance(.9)) x = k->second;
      else x = World::phrase(c, POOL, 1, 3);
      if (k != cons.end() && c.rng.chance(.05)) { if (c.rng.chance(.5)) x.push_back("z"); else x[c.rng.below(x.size())] += "z"; }
      tr.push_back(x);
    }
    size_t upto = c.rng.chance(.6) ? segs.size() : 1 + c.rng.below(segs.size());
    bool bad = false, firstcov = true;
    for (size_t i = 0; i < upto; ++i) {
      sg.push_back(std::make_pair((PositionIndex)segs[i].first, (PositionIndex)segs[i].second));
      t.insert(t.end(), tr[i].begin(), tr[i].end());
      cuts.push_back(t.size());
      for (auto& x : cons) if (segs[i].first <= x.first.second && segs[i].second >= x.first.first && !(x.first == segs[i] && x.second == tr[i])) bad = true;
    }
    // a beginning that enters a constrained phrase behind its first word may be found out later
    for (auto& x : cons) {
      bool first = false, any = false;
      for (size_t i = 0; i < upto; ++i) { if (segs[i].first <= x.first.first && segs[i].second >= x.first.first) first = true; if (segs[i].first <= x.first.second && segs[i].second >= x.first.first) any = true; }
      if (any && !first) firstcov = false;
    }
    bool ok = m.translationSatisfiesConstraints(sg, cuts, t);
    std::string d; for (size_t i = 0; i < upto; ++i) d += "[" + std::to_string(segs[i].first) + "-" + std::to_string(segs[i].second) + " " + S(tr[i]) + "]";
    if (ok == bad && !(ok && !firstcov)) c.fail(K + (bad ? "accepts" : "rejects"), "%s: constraints%s", d.c_str(), show(cons).c_str());
    c.count(bad ? "violating_translations" : "satisfying_translations");
    if (upto < segs.size()) c.count("partial_translations");
  }
}

static void parse(Ctx& c) {
  Mute mute;
  static TranslationMetadata<SmtModel::HypScoreInfo> xm;
  static JsonTranslationMetadata<SmtModel::HypScoreInfo> jm;
  auto trg = [&] { return World::phrase(c, POOL, 1, 3); };
  for (int rep = 0; rep < 30; ++rep) {
    bool lng = c.rng.chance(.02);
    VS src = World::phrase(c, POOL, c.rng.chance(.05) ? 0 : 1, lng ? 80 : 8);
    if (lng) c.count("long_sentences");
    if (c.rng.chance(.5)) {
      Cons cons = randcons(c, src.size(), trg);
      std::string s = writexml(c, src, cons);
      c.note("xml '%s'", s.c_str());
      VS s2; Cons c2; readxml(s, s2, c2);
      if (s2 != src || c2 != cons) c.fail("self", "the reference reads '%s' differently", s.c_str());
      xm.obtainTransConstraints(s);
      agree(c, xm, src, cons, "xml");
      c.count("xml_sentences");
      c.distinct(s);
    } else if (c.rng.chance(.5)) {      // any mixture of tags and words
      std::string s;
      VS tg(TAGS, TAGS + 6);
      int n = c.rng.range(0, c.rng.chance(.02) ? 150 : 16);
      VS form = {A, SS, "w", ES, TT, "w", ET, EA};
      for (int i = 0; i < n; ++i) {
        std::string x;
        if (c.rng.chance(.75)) { x = form[i % 8]; if (x == "w") x = c.rng.pick(POOL); }
        else x = c.rng.chance(.5) ? c.rng.pick(tg) : c.rng.pick(POOL);
        if (c.rng.chance(.03)) x.pop_back();
        s += x + gap(c, false);
      }
      c.note("xml soup '%s'", s.c_str());
      VS s2; Cons c2; readxml(s, s2, c2);
      xm.obtainTransConstraints(s);
      agree(c, xm, s2, c2, "soup");
      c.count("xml_soups");
      if (c2.size()) c.count("xml_soups_with_constraints");
      c.distinct(s);
    } else {
      // annotations in the order of the sentence; matched from left to right
      Cons want = randcons(c, src.size(), trg), cons;
      std::vector<std::string> as; unsigned pos = 0; bool all = true;
      VS es;
      bool extra = c.rng.chance(.3);
      for (auto& k : want) {
        VS a(src.begin() + k.first.first - 1, src.begin() + k.first.second);
        as.push_back(ann(c, a, k.second));
        unsigned p = pos;
        while (p + a.size() <= src.size() && !std::equal(a.begin(), a.end(), src.begin() + p)) ++p;
        if (p + a.size() > src.size()) { all = false; break; }
        cons[{p + 1, p + a.size()}] = k.second; pos = p + a.size();
        if (c.rng.chance(.1)) {       // entries that say nothing
          static const VS bad = {"{\"original\": \" \", \"translation\": \"x\"}", "{\"original\": \"a\", \"translation\": \"  \"}", "{\"original\": \"a\"}", "{}", "{\"original\": 3, \"translation\": \"x\"}",
                                 "\"a\"", "17", "null", "[\"original\"]", "true"};
          as.push_back(c.rng.pick(bad));
        }
      }
      if (!all) c.fail("self", "annotations of the sentence are not in it");
      if (extra) {      // one that is not in the rest of the sentence
        VS a(src.begin() + std::min<size_t>(pos, src.size()), src.end());
        if (c.rng.chance(.5)) a = World::phrase(c, POOL, 1, 3); else a.push_back(c.rng.pick(POOL));
        unsigned p = pos;
        while (p + a.size() <= src.size() && !std::equal(a.begin(), a.end(), src.begin() + p)) ++p;
        as.push_back(ann(c, a, {"z"}));
        if (p + a.size() <= src.size()) cons[{p + 1, p + a.size()}] = VS{"z"};
        else c.count("json_absent_annotations");
      }
      std::string s = writejson(c, src, as, !as.empty() || c.rng.chance(.5));
      c.note("json '%s'", s.c_str());
      jm.obtainTransConstraints(s);
      agree(c, jm, src, cons, "json");
      c.count("json_sentences");
      c.distinct(s);
      if (c.rng.chance(.15)) {      // text that is no such document is the sentence itself
        std::string t = s.substr(0, c.rng.below(s.size()));
        if (c.rng.chance(.5)) { t = "x"; for (auto& x : src) t += " " + x; }
        jm.obtainTransConstraints(t);
        VS tw; { std::string q = t; for (auto& ch : q) if (ch == '\t') ch = ' '; tw = W(q); }
        agree(c, jm, tw, {}, "nojson");
        c.count("not_json");
      }
    }
    c.eval();
  }
}

static void decode(Ctx& c) {
  World w;
  std::string dir = c.scratch + "/w";
  wipe(dir);
  w.gen(c, dir);
  Host h(w);
  if (!h.ok) c.fail("load", "the models do not load");
  std::unique_ptr<Host> h2;
  JsonTranslationMetadata<SmtModel::HypScoreInfo> jm;
  TMeta* xm = h.meta;
  static const VS unk = {"unseen", "Zz", "7", "\xe2\x82\xac"};
  int nq = c.rng.range(2, 6);
  bool prevcons = false;
  for (int it = 0; it < nq; ++it) {
    bool lng = c.rng.chance(.02);      // a sentence too long for the exhaustive search
    bool exact = !lng && c.rng.chance(.7);
    w.A = c.rng.chance(.3) ? 10 : c.rng.range(1, 3);
    w.U = c.rng.chance(.4) ? 0 : c.rng.chance(.5) ? c.rng.range(1, 2) : 10;
    w.E = 10;
    w.Wp = c.rng.chance(.4) ? 1000000 : c.rng.range(1, 4);
    w.S = exact ? 1000000 : c.rng.range(1, 20);
    w.I = exact ? 1 : c.rng.range(1, 3);
    w.bf = exact || c.rng.chance(.5);
    w.bsp = exact ? false : c.rng.chance(.7);
    static const int H[] = {NO_HEURISTIC, LOCAL_T_HEURISTIC, LOCAL_TD_HEURISTIC};
    w.heur = H[c.rng.below(3)];
    if (lng) { w.A = c.rng.range(1, 4); w.U = c.rng.below(3); w.S = c.rng.range(1, 4); w.Wp = c.rng.range(1, 5); w.I = 1; c.count("long_sentences_translated"); }
    w.w.clear();
    for (size_t i = 0; i < w.ncomp(); ++i) w.w.push_back(c.rng.chance(.3) ? 1.f : (float)(c.rng.range(1, 40) / 16.));
    w.ew = w.w;
    { Mute mute; h.pars(w); }
    VS src; int J = c.rng.range(1, c.thorough && c.rng.chance(.1) ? 7 : 5);
    if (lng) J = c.rng.range(6, 40);
    for (int i = 0; i < J; ++i) src.push_back(c.rng.chance(.1) ? c.rng.pick(unk) : c.rng.pick(w.sv));
    auto trg = [&] { VS v = World::phrase(c, w.tv, 1, 3); for (auto& x : v) if (c.rng.chance(.2)) x = c.rng.pick(unk); return v; };
    Mode m = !lng && prevcons && c.rng.chance(.35) ? (Mode)c.rng.range(1, 3) : FREE;
    Cons cons; std::string in = S(src), given;
    bool json = c.rng.chance(.4);
    if (m == FREE) {
      if (c.rng.chance(.8)) {
        if (json) {
          Cons k = randcons(c, J, trg);
          std::vector<std::string> as; unsigned pos = 0;
          for (auto& x : k) {
            VS a(src.begin() + x.first.first - 1, src.begin() + x.first.second);
            as.push_back(ann(c, a, x.second));
            while (!std::equal(a.begin(), a.end(), src.begin() + pos)) ++pos;
            cons[{pos + 1, pos + a.size()}] = x.second; pos += a.size();
          }
          in = writejson(c, src, as);
        } else { cons = randcons(c, J, trg); in = writexml(c, src, cons); }
      } else if (json) in = writejson(c, src, {});
    } else {
      VS g = World::phrase(c, w.tv, 1, 5);
      if (c.rng.chance(.6)) {      // what the models can produce word by word
        g.clear();
        for (auto& x : src) { std::set<VS> o; w.options({x}, o); if (o.empty()) continue; std::vector<VS> ov(o.begin(), o.end()); auto& t = c.rng.pick(ov); g.insert(g.end(), t.begin(), t.end()); }
        if (g.empty()) g = {w.tv[0]};
        if (m == PREF) g.resize(c.rng.range(1, g.size()));
      }
      given = S(g);
    }
    c.note("%s '%s' '%s' W %g A %u U %u S %u I %u heur %d bf %d bsp %d", MN[m], in.c_str(), given.c_str(), w.Wp, w.A, w.U, w.S, w.I, w.heur, w.bf, w.bsp);
    { Mute mute; h.m->link_trans_metadata(json ? (TMeta*)&jm : xm); }
    bool graph = m == FREE && c.rng.chance(.4) && h.rec;
    if (h.rec) { if (graph) h.rec->enableWordGraph(); else h.rec->disableWordGraph(); }
    Hyp y = go(h, m, in, given);
    bool complete; { Mute mute; complete = h.m->isComplete(y); }
    double sc = (double)y.getScore();
    std::string text;
    Search q(c, w, src, m, given);
    q.cons = cons;
    std::string K = prevcons && cons.empty() ? std::string("after:") + MN[m] : "constrained";
    if (m == FREE && !complete) c.fail("none", "no translation of '%s'", in.c_str());
    if (complete) {
      if (m == FREE) sound(c, w, h, q, m, y, given, "constrained translation");
      text = h.m->getTransInPlainText(y);
    }
    c.eval();
    // the constraints themselves, stated directly
    auto obey = [&](const Hyp& z, const char* what) {
      auto sg = h.segs(z);
      for (auto& k : cons) {
        bool hit = false;
        for (auto& g : sg) {
          if (g.l <= k.first.second && g.r >= k.first.first) {
            if (g.l != k.first.first || g.r != k.first.second || g.t != k.second) c.fail("violated", "%s %s of '%s'", what, show(sg).c_str(), in.c_str());
            hit = true;
          }
        }
        if (!hit) c.fail("uncovered", "%s %s of '%s'", what, show(sg).c_str(), in.c_str());
        c.count("constraints_obeyed");
      }
    };
    if (complete && m == FREE) obey(y, "translation");
    if (exact && !q.given.empty() + (m == FREE)) {
      Search::Val b; uint64_t nst = 0;
      bool any = q.best(b, nst);
      if (!q.tie) {
        if (any != complete) c.fail(K + (any ? ":missed" : ":impossible"), "%s", any ? show(b.h).c_str() : "no derivation exists");
        if (any && !close_enough(sc, b.sc, 2e-4, 2e-3)) c.fail(K + ":optimum", "score %.9g of %s, the best derivation %s scores %.9g", sc, show(h.segs(y)).c_str(), show(b.h).c_str(), b.sc);
        c.count(m == FREE ? (cons.empty() ? "optimum_without" : "optimum_constrained") : "optimum_given");
        c.distinct(in + given + std::to_string(b.sc));
      }
    }
    if (graph) {
      WordGraph* g = h.rec->getWordGraphPtr();
      std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> sv;
      { Mute mute; g->obtainNbestList(20, nb, hl, sv); }
      if (nb.empty()) c.fail("graph:none", "no sentence in the word graph of '%s'", in.c_str());
      for (auto& e : nb) {
        for (auto& k : cons) if ((" " + S(W(e.second)) + " ").find(" " + S(k.second) + " ") == std::string::npos) c.fail("graph", "'%s' is in the word graph of '%s'", e.second.c_str(), in.c_str());
        c.count("graph_sentences");
      }
      if (!cons.empty()) c.count("constrained_graphs");
    }
    if (complete && m == FREE && c.rng.chance(.4)) {
      for (int k = 0; k < 5; ++k) {
        Hyp z; { Mute mute; z = h.dec->getNextTrans(); }
        bool zc; { Mute mute; zc = h.m->isComplete(z); }
        if (!zc) break;
        sound(c, w, h, q, m, z, given, "next constrained translation");
        obey(z, "next translation");
        c.count("next_translations");
      }
    }
    // the same request where no constraints were ever seen
    if (m != FREE || (prevcons && cons.empty() && c.rng.chance(.5))) {
      h2.reset(new Host(w));
      if (json) { Mute mute; h2->m->link_trans_metadata(&jm); }
      Hyp z = go(*h2, m, in, given);
      bool zc; { Mute mute; zc = h2->m->isComplete(z); }
      std::string zt = zc ? h2->m->getTransInPlainText(z) : "";
      bool same = zc == complete && fabs((double)z.getScore() - sc) <= 1e-9 * (1 + fabs(sc));
      if (!same && !exact && (q.tie || lng)) same = true;
      if (!same) c.fail(K, "'%s' (%.9g) after a constrained sentence, '%s' (%.9g) in a fresh decoder", text.c_str(), sc, zt.c_str(), (double)z.getScore());
      c.count("compared_with_fresh");
      h2.reset();
    }
    if (m == FREE) prevcons = !cons.empty() || (prevcons && c.rng.chance(.5));
    if (it == 0) c.sample("'" + in + "' -> '" + text + "'");
  }
  { Mute mute; h.m->link_trans_metadata(xm); }
}

static void one(Ctx& c) {
  if (c.rng.chance(.3)) parse(c); else decode(c);
}
int main(int a, char** v) { return vh::run(a, v, one); }
