// LINK: shared
// The phrase-based decoder against the definition of its score and an exhaustive search.
#include "decsearch.h"

// the description of a hypothesis
static void printed(Ctx& c, World& w, Host& h, Search& q, const Hyp& y) {
  auto sg = h.segs(y);
  std::ostringstream o;
  { Mute mute; h.m->printHyp(y, o, c.rng.chance(.3)); }
  std::string t = o.str();
  auto after = [&](const std::string& a, const std::string& b) -> std::string {
    size_t i = t.find(a); if (i == std::string::npos) c.fail("print:format", "no '%s' in: %s", a.c_str(), t.c_str());
    i += a.size(); size_t j = t.find(b, i); if (j == std::string::npos) c.fail("print:format", "no '%s' in: %s", b.c_str(), t.c_str());
    return t.substr(i, j - i);
  };
  double sc = atof(after("Score: ", " ;").c_str());
  if (!close_enough(sc, y.getScore(), 1e-5, 1e-4)) c.fail("print:score", "score %g printed for %g", sc, (double)y.getScore());
  VS wl = W(after(" ; ", " ; "));      // name: value , name: value
  size_t n = 0;
  for (size_t i = 0; i + 1 < wl.size(); i += 3, ++n) if (!close_enough(atof(wl[i + 1].c_str()), w.wt(n), 1e-5, 1e-5)) c.fail("print:weight", "weight %zu is printed as %s, it is %g: %s", n, wl[i + 1].c_str(), w.wt(n), t.c_str());
  if (n != w.ncomp()) c.fail("print:weights", "%zu weights printed, %zu components", n, w.ncomp());
  std::string x = after(" ; ", "; Score+heur"); x = x.substr(x.find(" ; ") + 3);
  VS cl = W(x);
  auto v = w.comps(q.src, sg);
  if (cl.size() != v.size()) c.fail("print:comps", "%zu components printed, %zu expected: %s", cl.size(), v.size(), t.c_str());
  for (size_t i = 0; i < v.size(); ++i) if (!close_enough(atof(cl[i].c_str()), v[i], 2e-4, 2e-3)) c.fail("print:comp", "component %zu printed as %s, by definition %.9g: %s", i, cl[i].c_str(), v[i], t.c_str());
  if (t.find("Incomplete_alignment") != std::string::npos) c.fail("print:incomplete", "printed as incomplete: %s", t.c_str());
  std::string ss = after("| Source Segmentation:", "| Target Segmentation:");
  std::string tc = after("| Target Segmentation:", "| hypkey");
  size_t p = 0; unsigned cut = 0; std::string wc;
  for (auto& g : sg) {
    unsigned l, r; int used = 0;
    if (sscanf(ss.c_str() + p, " ( %u , %u ; type: %n", &l, &r, &used) != 2 || !used || l != g.l || r != g.r) c.fail("print:segment", "segment %u-%u expected at: %s", g.l, g.r, ss.c_str() + p);
    p += used; size_t e = ss.find(" )", p); std::string ty = "," + ss.substr(p, e - p) + ","; p = e + 2;
    VS s(q.src.begin() + g.l - 1, q.src.begin() + g.r);
    for (auto* l : {&w.cus, &w.otf}) for (auto& d : *l) {
      std::string nm = d.kind == Dict::SENT ? ",on_the_fly_" + d.name + ":i" + S(g.t) + "," : ",custom_" + d.name + ",";
      bool has = ty.find(nm) != std::string::npos, want = d.e.count({s, g.t});
      if (has != want) c.fail("print:type", "'%s' as '%s' is %sin %s but printed as %s", S(s).c_str(), S(g.t).c_str(), want ? "" : "not ", d.name.c_str(), ty.c_str());
    }
    std::set<VS> op; w.options(s, op);
    if (!op.count(g.t) && ty != ",UNKNOWN_WORD,") c.fail("print:unknown", "'%s' as '%s' is no option but printed as %s", S(s).c_str(), S(g.t).c_str(), ty.c_str());
    if (op.count(g.t) && ty == ",UNKNOWN_WORD,") c.fail("print:known", "'%s' as '%s' is an option but printed as unknown", S(s).c_str(), S(g.t).c_str());
    cut += g.t.size(); wc += " " + std::to_string(cut);
  }
  if (S(W(tc)) != S(W(wc))) c.fail("print:cuts", "target segmentation '%s', expected '%s'", tc.c_str(), wc.c_str());
  c.count("hypotheses_printed");
}

static void one(Ctx& c) {
  World w;
  std::string dir = c.scratch + "/w";
  wipe(dir);
  w.dicts = c.rng.chance(.6);
  w.gen(c, dir);
  Host h(w, w.cfdesc(c));
  if (!h.ok) c.fail("load", "the models do not load");
  {
    std::vector<std::pair<std::string, float>> gw; h.m->getWeights(gw);
    if (gw.size() != w.ncomp()) c.fail("weights:n", "%zu weights, %zu components expected", gw.size(), w.ncomp());
  }
  std::unique_ptr<Host> h2;
  BaseSmtModel<Hyp>* cl = nullptr;
  struct Rec { Mode m; std::string s, g, text; double sc; bool complete; std::string cfg; };
  std::vector<Rec> hist;
  int nq = c.rng.range(2, 5);
  for (int it = 0; it < nq; ++it) {
    // configuration
    bool lng = c.rng.chance(.02);      // a sentence too long for the exhaustive search
    if (it == 0 || lng || c.rng.chance(.6)) {
      bool exact = !lng && c.rng.chance(.6);
      w.A = c.rng.chance(.3) ? 10 : c.rng.range(1, 3);
      w.U = c.rng.chance(.4) ? 0 : c.rng.chance(.5) ? c.rng.range(1, 2) : 10;
      w.E = c.rng.chance(.3) ? 10 : c.rng.range(0, 2);
      w.Wp = c.rng.chance(.4) ? 1000000 : c.rng.chance(.5) ? c.rng.range(1, 4) : (float)(.05 + .9 * c.rng.unit());
      w.S = exact ? 1000000 : c.rng.range(1, 20);
      w.I = exact ? 1 : c.rng.range(1, 3);
      w.bf = exact || c.rng.chance(.5);
      w.bsp = exact ? false : c.rng.chance(.7);
      if (lng) { w.A = c.rng.range(1, 4); w.U = c.rng.below(3); w.E = c.rng.below(3); w.S = c.rng.range(1, 4); w.Wp = c.rng.range(1, 5); w.I = 1; }
      static const int H[] = {NO_HEURISTIC, LOCAL_T_HEURISTIC, LOCAL_TD_HEURISTIC};
      w.heur = H[c.rng.below(3)];
      w.w.clear();
      for (size_t i = 0; i < w.ncomp(); ++i) w.w.push_back(c.rng.chance(.3) ? 1.f : c.rng.chance(.15) ? 0.f : (float)(c.rng.range(1, 40) / 16.));
      if (c.rng.chance(.1)) w.w.resize(c.rng.below(w.w.size() + 1));
      Mute mute; h.pars(w);
    }
    bool exact = w.S >= 1000000 && w.bf && !w.bsp;
    if (lng) c.count("long_sentences");
    std::string cfg; { char b[200]; snprintf(b, 200, "W %g A %u E %u U %u S %u I %u heur %d bf %d bsp %d", w.Wp, w.A, w.E, w.U, w.S, w.I, w.heur, w.bf, w.bsp); cfg = b; }
    VS unk = {"unseen", "Zz", "7", "\xe2\x82\xac"};
    Mode m = c.rng.chance(.45) ? FREE : (Mode)c.rng.range(1, 3);
    VS src; int J = c.rng.range(1, c.thorough && c.rng.chance(.1) ? 7 : 5);
    if (lng) J = c.rng.range(6, 20);
    if (lng && m == FREE && c.rng.chance(.2)) { J = c.rng.range(21, MAX_SENTENCE_LENGTH_ALLOWED - 1); w.U = c.rng.below(2); w.S = 1; Mute mute; h.pars(w); }
    for (int i = 0; i < J; ++i) src.push_back(c.rng.chance(.08) ? c.rng.pick(unk) : c.rng.pick(w.sv));
    // what comes with the sentence
    w.sentw.clear();
    if (w.dicts && c.rng.chance(.15)) { for (size_t i = 0; i < w.ncomp(); ++i) w.sentw.push_back((float)(c.rng.range(1, 40) / 16.)); c.count("sentence_weights"); }
    // only free translation reads them
    w.ew = m != FREE || w.sentw.empty() ? w.w : w.sentw;
    if (m != FREE) { for (auto& d : w.otf) d.e.clear(); }
    else if (w.otf.size() && c.rng.chance(.7)) { size_t n = w.otf.size(); std::string nm; w.otf.clear(); for (size_t k = 0; k < n; ++k) w.gendict(c, w.otf, Dict::SENT, "otf" + std::to_string(k)); }
    if (w.cus.size()) c.count("requests_with_custom_features");
    if (w.otf.size()) c.count("requests_with_sentence_features");
    std::string g;
    if (m != FREE) {
      VS r;
      // something the models can produce, with changes, or anything
      if (c.rng.chance(.7)) {
        std::vector<unsigned> ord; for (unsigned i = 1; i <= (unsigned)J; ++i) ord.push_back(i);
        unsigned i = 1;
        std::vector<VS> parts;
        while (i <= (unsigned)J) {
          unsigned e = i; std::set<VS> o;
          for (unsigned x = std::min((unsigned)J, i + (unsigned)c.rng.below(3)); x >= i; --x) { w.options(VS(src.begin() + i - 1, src.begin() + x), o); if (o.size()) { e = x; break; } }
          if (o.empty()) parts.push_back({c.rng.pick(w.tv)});
          else { std::vector<VS> ov(o.begin(), o.end()); parts.push_back(c.rng.pick(ov)); }
          i = e + 1;
        }
        if (c.rng.chance(.3)) c.rng.shuffle(parts);
        for (auto& p : parts) for (auto& x : p) r.push_back(c.rng.chance(m == VER ? 0 : .1) ? c.rng.pick(unk) : x);
      } else r = World::phrase(c, w.tv, 1, 7);
      if (r.size() >= MAX_SENTENCE_LENGTH_ALLOWED) r.resize(MAX_SENTENCE_LENGTH_ALLOWED - 1);
      if (m == PREF) r.resize(c.rng.range(1, r.size()));
      if (m != PREF && c.rng.chance(.06)) r.resize(c.rng.below(2));
      g = S(r);
      if (m == PREF) {
        if (c.rng.chance(.4)) g += " ";
        else if (c.rng.chance(.3) && g.size() > 1 && (g[g.size() - 1] & 0x80) == 0 && g[g.size() - 2] != ' ') g.pop_back();
      }
    }
    c.note("%s: %s '%s' '%s'", cfg.c_str(), MN[m], S(src).c_str(), g.c_str());
    std::string wts; for (float x : w.ew) wts += " " + std::to_string(x);
    c.note("weights%s", wts.c_str());
    Search q(c, w, src, m, g);
    Hyp y = go(h, m, S(src), g);
    bool complete; { Mute mute; complete = h.m->isComplete(y); }
    std::string text;
    double sc = (double)y.getScore();
    if (m != FREE && q.given.empty()) { c.count("empty_reference"); continue; }     // what that means is not specified
    if (complete) {
      sound(c, w, h, q, m, y, g, "translation");
      text = h.m->getTransInPlainText(y);
      if (c.rng.chance(.25)) printed(c, w, h, q, y);
    } else {
      if (!h.segs(y).empty()) c.fail(std::string(MN[m]) + ":partial", "neither a complete hypothesis nor the null one: %s", show(h.segs(y)).c_str());
      if (m == FREE || m == PREF) {
        if (exact || m == FREE) c.fail(std::string(MN[m]) + ":none", "no translation");
      }
    }
    c.eval();
    if (exact) {
      Search::Val b; uint64_t nst = 0;
      bool any = q.best(b, nst);
      c.maxi("max_reference_states", nst);
      if (!q.tie) {
        if (any != complete) c.fail(std::string(MN[m]) + (any ? ":missed" : ":impossible"), any ? "no translation although there is one: %s (%.9g)" : "translated although no derivation exists%s", any ? show(b.h).c_str() : "", b.sc);
        if (any && !w.same(sc, b.sc, w.dictpart(w.comps(src, b.h)))) c.fail(std::string(MN[m]) + ":optimum", "score %.9g of %s, the best derivation %s scores %.9g", sc, show(h.segs(y)).c_str(), show(b.h).c_str(), b.sc);
        c.count("optimum_compared");
        c.count(std::string("optimum_") + MN[m]);
        c.distinct(cfg + S(src) + MN[m] + g + std::to_string(b.sc));
      }
    } else if (complete && !lng) {
      Search::Val b; uint64_t nst = 0;
      if (q.best(b, nst) && !q.tie && sc > b.sc && !w.same(sc, b.sc, w.dictpart(w.comps(src, b.h)))) c.fail(std::string(MN[m]) + ":better", "score %.9g beats the best derivation's %.9g", sc, b.sc);
      if (!q.tie && b.sc > sc + 1e-2) c.count("search_errors");
      c.count("pruned_searches");
    }
    // further translations
    if (complete && c.rng.chance(J > 12 ? .05 : .3)) {
      double last = sc;
      std::set<std::string> seen; seen.insert(show(h.segs(y)));
      for (int k = 0; k < 6; ++k) {
        Hyp z; { Mute mute; z = h.dec->getNextTrans(); }
        bool zc; { Mute mute; zc = h.m->isComplete(z); }
        if (!zc) break;
        sound(c, w, h, q, m, z, g, "next translation");
        if (!seen.insert(show(h.segs(z))).second) c.fail(std::string(MN[m]) + ":next:dup", "the same derivation twice: %s", show(h.segs(z)).c_str());
        if (exact && (double)z.getScore() > last + 1e-6 * (1 + fabs(last))) c.fail(std::string(MN[m]) + ":next:order", "a further translation scores %.9g after %.9g", (double)z.getScore(), last);
        last = z.getScore();
        c.count("next_translations");
      }
    }
    hist.push_back({m, S(src), g, text, sc, complete, cfg});
    // the same request gives the same answer whatever was translated before
    if (c.rng.chance(.35)) {
      auto& r = hist.back();
      if (c.rng.chance(.5)) { if (!h2) h2.reset(new Host(w, w.cfdesc(c))); Mute mute; h2->pars(w); }
      Host& hh = h2 && c.rng.chance(.8) ? *h2 : h;
      { Mute mute; hh.pars(w); }
      Hyp z = go(hh, r.m, r.s, r.g);
      bool zc; { Mute mute; zc = hh.m->isComplete(z); }
      std::string zt = zc ? hh.m->getTransInPlainText(z) : "";
      // equal scores may be ordered either way, and what a limited stack then loses is arbitrary
      bool same = zc == r.complete && fabs((double)z.getScore() - r.sc) <= 1e-9 * (1 + fabs(r.sc));
      if (!same && (q.tie || lng || (!exact && std::count(w.ew.begin(), w.ew.end(), 0.f)))) same = true;
      if (!same)
        c.fail(std::string(MN[r.m]) + ":history", "%s: '%s' (%.9g) the first time, '%s' (%.9g) in a decoder with another past", r.s.c_str(), r.text.c_str(), r.sc, zt.c_str(), (double)z.getScore());
      c.count("repeats");
    }
    if (c.rng.chance(.15)) {      // a copy of the model for another user
      if (cl) delete cl;
      Mute mute;
      cl = h.m->clone();
      auto* cm = dynamic_cast<SmtModel*>(cl);
      auto* meta = mkmeta(w);
      cm->link_trans_metadata(meta);
      auto* d = factories().baseStackDecoderDynClassLoader.make_obj("");
      d->link_smt_model(cm);
      d->set_S_par(w.S); d->set_I_par(w.I); d->set_breadthFirst(w.bf); d->useBestScorePruning(w.bsp);
      Hyp z = m == FREE ? d->translate(S(src)) : m == REF ? d->translateWithRef(S(src), g) : m == VER ? d->verifyCoverageForRef(S(src), g) : d->translateWithPrefix(S(src), g);
      bool zc = cm->isComplete(z); std::string zt = zc ? cm->getTransInPlainText(z) : "";
      double zs = z.getScore();
      delete d; delete cl; cl = nullptr; delete meta;
      bool same = zc == complete && fabs(zs - sc) <= 1e-9 * (1 + fabs(sc));
      if (!same && (q.tie || lng || (!exact && std::count(w.ew.begin(), w.ew.end(), 0.f)))) same = true;
      if (!same) c.fail(std::string(MN[m]) + ":clone", "'%s' (%.9g) from the model, '%s' (%.9g) from its copy", text.c_str(), sc, zt.c_str(), zs);
      c.count("clones");
    }
  }
  // sentences out of bounds give the null hypothesis
  if (c.rng.chance(.1)) {
    VS big(MAX_SENTENCE_LENGTH_ALLOWED + c.rng.below(3), w.sv[0]);
    Mode m = (Mode)c.rng.range(0, 3);
    Hyp y = go(h, m, c.rng.chance(.3) ? "" : S(big), "A");
    bool zc; { Mute mute; zc = h.m->isComplete(y) && !h.segs(y).empty(); }
    if (zc) c.fail("bounds", "an empty or too long sentence was translated");
    Hyp z = go(h, FREE, w.sv[0], "");
    { Mute mute; zc = h.m->isComplete(z); }
    if (!zc) c.fail("bounds:after", "no translation after an out-of-bounds sentence");
    c.count("out_of_bounds");
  }
  if (hist.size()) c.sample(hist.back().cfg + " " + MN[hist.back().m] + " '" + hist.back().s + "' '" + hist.back().g + "' -> '" + hist.back().text + "'");
}
int main(int a, char** v) { return vh::run(a, v, one); }
