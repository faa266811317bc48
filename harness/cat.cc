// LINK: shared
// Interactive prediction through ThotDecoder: every answer begins with what the user typed, and
// depends on the source sentence and the total prefix only, not on how the prefix was entered,
// on earlier sessions or on other users.
#include "decsearch.h"
#include "ThotDecoder.h"

struct Dec {
  ThotDecoder d;
  ThotDecoderUserPars up;
  std::set<int> users;
  bool ok;
  explicit Dec(const std::string& cfg) { ok = d.initUsingCfgFile(cfg, up, 0) == THOT_OK; }
  void user(int u) { if (users.insert(u).second) d.initUserPars(u, up, 0); }
  std::string start(int u, const std::string& s) { user(u); std::string r; d.startCat(u, s.c_str(), r); return r; }
  std::string add(int u, const std::string& s, const RejectedWordsSet& rj) { user(u); std::string r; d.addStrToPref(u, s.c_str(), rj, r); return r; }
  std::string set(int u, const std::string& s, const RejectedWordsSet& rj) { user(u); std::string r; d.setPref(u, s.c_str(), rj, r); return r; }
  std::string trans(int u, const std::string& s) { user(u); std::string r, i; d.translateSentence(u, s.c_str(), r, i); return r; }
};

struct Sess { bool started = false; std::string src, pref; RejectedWordsSet rj; std::string res; };

static std::string q(const std::string& s) { return "'" + s + "'"; }

static std::string chunk(Ctx& c, const World& w, const Sess& s) {
  std::string o;
  switch (c.rng.below(9)) {
    case 0: return "";
    case 1: return " ";
    case 2: return std::string(c.rng.range(2, 3), ' ');
    case 3: case 4: {      // accept some more of the prediction
      if (s.res.size() > s.pref.size()) return s.res.substr(s.pref.size(), c.rng.range(1, 6));
      return " ";
    }
    case 5: { std::string x = c.rng.pick(w.tv); return x.substr(0, c.rng.range(1, x.size())); }
    case 6: return "zz" + std::string(c.rng.chance(.5) ? " " : "");
    default: {
      int n = c.rng.range(1, c.rng.chance(.02) ? 12 : 4);
      for (int i = 0; i < n; ++i) o += (i || c.rng.chance(.3) ? " " : "") + c.rng.pick(w.tv);
      if (c.rng.chance(.5)) o += " ";
      return o;
    }
  }
}

static std::set<std::string> stored;      // sentences whose word graphs are given to the decoder

static std::string sentence(Ctx& c, const World& w) {
  if (!stored.empty() && c.rng.chance(.6)) { auto i = stored.begin(); std::advance(i, c.rng.below(stored.size())); return *i; }
  int n = c.rng.range(1, c.rng.chance(.015) ? 12 : 6);
  if (n > 6) c.count("long_sentences");
  VS v;
  for (int i = 0; i < n; ++i) v.push_back(c.rng.chance(.08) ? "unk" + std::to_string(c.rng.below(3)) : c.rng.pick(w.sv));
  return S(v);
}

static void one(Ctx& c) {
  static int serial = 0;
  World w;
  std::string dir = c.scratch + "/w" + std::to_string(serial++);
  w.noties = true;
  w.gen(c, dir);
  std::set<std::string> known;      // source words that have a translation
  for (auto& t : w.tm) for (auto& x : t->c) if (x.first.first.size() == 1) known.insert(x.first.first[0]);
  bool trained = false, wide = c.rng.chance(.7);
  std::string cfg = dir + "/cfg";
  {
    std::ofstream o(cfg);
    o << "-tm " << w.tmfile << "\n-lm " << w.lmfile << "\n-W " << (wide ? 1000 : 3) << "\n-S " << (c.rng.chance(.5) ? 100 : c.rng.range(1, 10)) << "\n-A 7\n-nomon " << (c.rng.chance(.5) ? 0 : 2)
      << "\n-h " << (c.rng.chance(.5) ? 4 : 6) << "\n-olp 0 0 1 " << c.rng.range(1, 2) << " 1 0\n";
    if (c.rng.chance(.3)) o << "-be\n";
    if (c.rng.chance(.3)) o << "-wgp " << (c.rng.chance(.5) ? "0.5" : "3") << "\n";
    if (c.rng.chance(.4)) { o << "-tmw"; for (float x : w.w) o << " " << x; o << "\n"; }
    if (c.rng.chance(.4)) o << "-catw " << c.rng.range(1, 8) / 4. << " " << c.rng.range(1, 8) / 4. << "\n";
  }
  stored.clear();
  if (c.rng.chance(.2)) {      // word graphs of some sentences
    Host h(w);
    if (!h.ok || !h.rec) c.fail("load", "the models do not load");
    std::ofstream l(dir + "/wgh");
    int n = c.rng.range(1, 4);
    for (int i = 0; i < n; ++i) {
      std::string s = sentence(c, w), f = dir + "/wg" + std::to_string(i);
      if (stored.count(s)) continue;
      Mute m;
      w.Wp = 1000; w.S = 100; w.A = 7; w.U = c.rng.below(3); w.I = 1; w.bf = c.rng.chance(.5); w.bsp = false;
      h.pars(w); h.rec->enableWordGraph();
      Hyp y = go(h, FREE, s, "");
      if (!h.m->isComplete(y)) continue;
      h.rec->printWordGraph(f.c_str());
      l << s << " ||| " << f << ".wg\n";
      stored.insert(s);
      c.count("stored_word_graphs");
    }
    l.close();
    std::ofstream(cfg, std::ios::app) << "-wgh " << dir << "/wgh\n";
  }
  std::unique_ptr<Mute> mute(new Mute);
  std::unique_ptr<Dec> D(new Dec(cfg));
  mute.reset();
  if (!D->ok) c.fail("init", "the decoder does not load its configuration");
  std::map<int, Sess> ss;
  int nu = c.rng.range(1, 3), fresh = 100;
  int nops = c.rng.range(4, c.rng.chance(.03) ? 60 : 25);
  bool train = c.rng.chance(.4);
  auto check = [&](int u, const char* op) {
    Sess& s = ss[u];
    c.eval();
    if (s.res.compare(0, s.pref.size(), s.pref) != 0)
      c.fail(std::string("prefix:") + op, "%s: the prediction %s does not begin with the typed prefix %s (source %s)", op, q(s.res).c_str(), q(s.pref).c_str(), q(s.src).c_str());
    c.count("prefix_respected");
    if (s.res.size() > s.pref.size()) c.count("completions");
    c.distinct(s.src + "|" + s.pref + "|" + s.res);
    if (!s.started) return;
    if (stored.count(s.src)) c.count("stored_predictions");
    if (std::string(op) != "start") {
      Mute m;
      D->d.resetPrefix(u);
      if (c.rng.chance(.7)) { D->add(u, "qq", s.rj); D->d.resetPrefix(u); c.count("recomputed"); }      // nothing of the last prefix can be reused
      std::string r = D->add(u, s.pref, s.rj);
      if (r != s.res) c.fail(std::string("increments:") + op, "%s: the prediction for source %s and prefix %s is %s, but %s when the prefix is entered again at once", op, q(s.src).c_str(), q(s.pref).c_str(), q(s.res).c_str(), q(r).c_str());
      c.count("increments_checked");
    }
    bool unique = wide && !trained;      // scores without ties, so that the order of options does not matter
    for (auto& x : W(s.src)) if (!known.count(x)) unique = false;
    if (unique && c.rng.chance(.6)) {
      int f = c.rng.chance(.5) || fresh == 100 ? fresh++ : fresh - 1;
      Mute m;
      std::string r = D->start(f, s.src);
      if (std::string(op) != "start") r = D->add(f, s.pref, s.rj);
      if (r != s.res) { c.fail(std::string("history:") + op, "%s: the prediction for source %s and prefix %s is %s, but %s when the prefix is entered at once in a new session", op, q(s.src).c_str(), q(s.pref).c_str(), q(s.res).c_str(), q(r).c_str()); }
      c.count("history_checked");
    }
    if (!s.rj.empty() && s.res.size() > s.pref.size() && (s.pref.empty() || s.pref.back() == ' ')) {
      std::string x = s.res.substr(s.pref.size());
      VS v = W(x);
      if (!v.empty()) {
        c.count("rejections");
        for (auto& r : s.rj) if (r.first.empty() && v[0] == r.second)
          c.fail("rejected", "the prediction %s for prefix %s goes on with the rejected word %s", q(s.res).c_str(), q(s.pref).c_str(), q(r.second).c_str());
      }
    }
  };
  for (int k = 0; k < nops; ++k) {
    int u = c.rng.range(1, nu);
    Sess& s = ss[u];
    int op = c.rng.below(16);
    if (op == 14 && !train) op = 5;
    if (!s.started && c.rng.chance(.9)) op = 0;
    std::unique_ptr<Mute> m(new Mute);
    if (op <= 2) {
      s = Sess(); s.started = true; s.src = sentence(c, w);
      c.note("user %d: start %s", u, q(s.src).c_str());
      s.res = D->start(u, s.src);
      m.reset();
      c.note("  -> %s", q(s.res).c_str());
      check(u, "start");
    } else if (op <= 10) {
      std::string x = chunk(c, w, s);
      s.rj.clear();
      if (c.rng.chance(.2)) s.rj.insert({"", c.rng.pick(w.tv)});
      s.pref += x;
      c.note("user %d: add %s %s", u, q(x).c_str(), s.rj.empty() ? "" : ("reject " + s.rj.begin()->second).c_str());
      s.res = D->add(u, x, s.rj);
      m.reset();
      c.note("  -> %s", q(s.res).c_str());
      check(u, "add");
    } else if (op == 11) {
      c.note("user %d: reset", u);
      s.pref = ""; s.res = "";
      D->user(u); D->d.resetPrefix(u);
    } else if (op == 12) {
      s.rj.clear();
      std::string np;
      if (c.rng.chance(.4)) np = s.pref + chunk(c, w, s);
      else if (c.rng.chance(.4)) np = s.pref.substr(0, c.rng.below(s.pref.size() + 1));
      else { int n = c.rng.range(0, 3); for (int i = 0; i < n; ++i) np += c.rng.pick(w.tv) + " "; }
      s.pref = np;
      c.note("user %d: set %s", u, q(np).c_str());
      s.res = D->set(u, np, s.rj);
      m.reset();
      c.note("  -> %s", q(s.res).c_str());
      check(u, "set");
    } else if (op == 13) {
      std::string x = sentence(c, w);
      c.note("user %d: translate %s", u, q(x).c_str());
      // the word graph of the session is the decoder's last one
      D->trans(u, x);
      s.started = false; s.pref = ""; s.res = "";
      D->d.resetPrefix(u);
    } else if (op == 14) {
      std::string a = sentence(c, w), b; { int n = c.rng.range(1, 5); VS v; for (int i = 0; i < n; ++i) v.push_back(c.rng.chance(.1) ? "new" : c.rng.pick(w.tv)); b = S(v); }
      c.note("train %s ||| %s", q(a).c_str(), q(b).c_str());
      D->user(u);
      D->d.onlineTrainSentPair(u, a.c_str(), b.c_str());
      for (auto& x : ss) x.second.started = false;      // open sessions keep the old word graph
      for (auto& x : ss) { D->user(x.first); D->d.resetPrefix(x.first); x.second.pref = ""; x.second.res = ""; }
      c.count("trained"); trained = true;
    } else {
      std::string x = sentence(c, w), r;
      int v = c.rng.range(1, nu);
      c.note("user %d: translate %s twice", v, q(x).c_str());
      std::string a = D->trans(50, x), b = D->trans(51, x);
      m.reset();
      if (a != b) c.fail("user", "two users get different translations of %s: %s and %s", q(x).c_str(), q(a).c_str(), q(b).c_str());
      c.count("same_for_users");
    }
  }
  c.sample(c.caselog);
  { Mute m; D.reset(); }
  wipe(dir);
}

int main(int argc, char** argv) { return vh::run(argc, argv, one); }
