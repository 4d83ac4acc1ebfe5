// Long runs (C05), seeds (C08) and set-up order (C07).
static std::map<int, int> groupOf() {
  std::map<int, int> g;
  for (int i : ids) { int c = sys->getClusterIdOfSite(i); g[i] = c == constants::unassignedId ? -1000000 - i : c; }
  return g;
}
static std::unique_ptr<CoarseGrainSystem> proto;
static std::map<int, std::shared_ptr<Walker>> pw;
static bool more(Line& l) {
  if (l.op == "Long") {  // one walker, warm hops, then n hops measured
    long long warm = l.n(), n = l.n(), k = l.n();
    VVL m;
    while (k--) { long long a = l.n(), b = l.n(); m.push_back({a, b}); }
    guarded(J("Long").aa("m", m).i("n", n), [&](J& j) {
      int id = 1;
      std::vector<std::pair<int, std::shared_ptr<Walker>>> v(1, std::make_pair(id, std::shared_ptr<Walker>(new W)));
      v[0].second->occupySite((int)m[0][0]);
      sys->initializeWalkers(v);
      auto& w = v[0].second;
      for (long long i = 0; i < warm; ++i) sys->hop(id, w);
      VVL before = clustersOf(*sys, true);
      auto g = groupOf();
      std::map<int, double> t;
      std::map<int, long long> in;
      double total = 0;
      for (long long i = 0; i < n; ++i) {
        int at = w->getIdOfSiteCurrentlyOccupying();
        t[at] += w->getDwellTime();
        total += w->getDwellTime();
        sys->hop(id, w);
        int to = w->getIdOfSiteCurrentlyOccupying();
        if (g[at] != g[to]) in[to]++;
      }
      VVL tt, ii;
      for (int s : ids) { tt.push_back({s, fx(t[s] / total, 1e5)}); ii.push_back({s, in[s]}); }
      VVL after = clustersOf(*sys, true);
      sys->removeWalkerFromSystem(id, w);
      j.aa("time", tt).aa("entries", ii).i("same", before == after).aa("cls", after);
    });
  } else if (l.op == "Crowd") {  // several walkers, always the one whose time comes first hops
    long long nw = l.n(), n = l.n(), k = l.n();
    VVL m;
    while (k--) { long long a = l.n(), b = l.n(); m.push_back({a, b}); }
    guarded(J("Crowd").aa("m", m).i("n", n).i("walkers", nw), [&](J& j) {
      std::vector<std::pair<int, std::shared_ptr<Walker>>> v;
      for (int w = 0; w < nw; ++w) { v.push_back(std::make_pair(w + 3, std::shared_ptr<Walker>(new W))); v[w].second->occupySite((int)m[w][0]); }
      sys->initializeWalkers(v);
      std::vector<double> next;
      for (auto& w : v) next.push_back(w.second->getDwellTime());
      std::map<int, double> t;
      std::map<int, long long> in;
      double total = 0;
      for (long long i = 0; i < n; ++i) {
        int w = std::min_element(next.begin(), next.end()) - next.begin(), at = v[w].second->getIdOfSiteCurrentlyOccupying();
        t[at] += v[w].second->getDwellTime();
        total += v[w].second->getDwellTime();
        sys->hop(v[w]);
        int to = v[w].second->getIdOfSiteCurrentlyOccupying();
        next[w] += v[w].second->getDwellTime();
        if (at != to) in[to]++;
      }
      VVL tt, ii;
      for (int s : ids) { tt.push_back({s, fx(t[s] / total, 1e5)}); ii.push_back({s, in[s]}); }
      for (auto& w : v) sys->removeWalkerFromSystem(w);
      j.aa("time", tt).aa("entries", ii).aa("cls", clustersOf(*sys, true));
    });
  } else if (l.op == "Passage") {  // n walkers one after the other until they reach a drain
    long long n = l.n(), k = l.n();
    VVL m, gs;
    while (k--) { long long a = l.n(), b = l.n(); m.push_back({a, b}); }
    k = l.n();
    while (k--) { long long c = l.n(); VL v; while (c--) v.push_back(l.n()); gs.push_back(v); }
    guarded(J("Passage").aa("m", m).aa("groups", gs).i("n", n), [&](J& j) {
      double total = 0;
      std::map<int, long long> ends;
      long long skip = n / 10, count = 0;
      for (long long i = 0; i < n + skip; ++i) {
        int id = i % 7;
        std::vector<std::pair<int, std::shared_ptr<Walker>>> v(1, std::make_pair(id, std::shared_ptr<Walker>(new W)));
        v[0].second->occupySite((int)gs[0][i % gs[0].size()]);
        sys->initializeWalkers(v);
        auto& w = v[0].second;
        double t = 0;
        while (!drain(w->getIdOfSiteCurrentlyOccupying())) { t += w->getDwellTime(); sys->hop(id, w); }
        sys->removeWalkerFromSystem(id, w);
        if (i >= skip) { total += t; ++count; ++ends[w->getIdOfSiteCurrentlyOccupying()]; }
      }
      VVL en;
      for (auto& p : ends) en.push_back({p.first, p.second});
      j.aa("ends", en).i("mean", fx(total / count * unit, TICK)).aa("cls", clustersOf(*sys, true));
    });
  } else if (l.op == "Seeds") {
    long long a = l.n(), b = l.n(), n = l.n();
    guarded(J("Seeds").i("n", n), [&](J& j) {
      std::unique_ptr<CoarseGrainSystem> s[3];
      const char* key[3] = {"a", "b", "c"};
      std::vector<double> dw[3];
      for (int k = 0; k < 3; ++k) {
        make(s[k], k == 2 ? b : a);
        std::vector<std::pair<int, std::shared_ptr<Walker>>> v;
        int id = 1;
        for (int i : ids) if (!drain(i) && id <= 3) { v.push_back(std::make_pair(id++, std::shared_ptr<Walker>(new W))); v.back().second->occupySite(i); }
        s[k]->initializeWalkers(v);
        if (k == 0) {  // dwell times in units of the mean of their sites
          long long near = 1000000000;
          for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < a; ++b) {
            double u[2];
            for (int q = 0; q < 2; ++q) {
              auto& w = v[q ? a : b].second;
              double sum = 0;
              for (auto& r : rates[w->getIdOfSiteCurrentlyOccupying()]) sum += r.second;
              u[q] = w->getDwellTime() * sum;
            }
            near = std::min(near, (long long)std::llabs(differ(u[0], u[1])));
          }
          j.i("near", near);
        }
        VVL out;
        for (int q = 0; q < n; ++q)
          for (auto& w : v) {
            int p = w.second->getIdOfSiteCurrentlyOccupying();
            if (drain(p)) continue;
            dw[k].push_back(w.second->getDwellTime());
            out.push_back({p, w.second->getPotentialSite()});
            s[k]->hop(w);
          }
        j.aa(key[k], out);
      }
      for (int k = 1; k < 3; ++k) {
        VL d;
        for (size_t q = 0; q < std::min(dw[0].size(), dw[k].size()); ++q) d.push_back(differ(dw[0][q], dw[k][q]));
        j.a(k == 1 ? "ab" : "ac", d);
      }
    });
  } else if (l.op == "ClusterSeeds") {  // the first stay in each of three clusters and on a lone site, in units of the mean
    long long seed = l.n(), a[3] = {l.n(), l.n(), l.n()}, lone = l.n();
    guarded(J("ClusterSeeds"), [&](J& j) {
      std::vector<double> u[2];
      int formed = 1;
      for (int t = 0; t < 2; ++t) {
        std::unique_ptr<CoarseGrainSystem> s;
        make(s, seed);
        auto put = [&](int id, int site) {
          std::vector<std::pair<int, std::shared_ptr<Walker>>> v(1, std::make_pair(id, std::shared_ptr<Walker>(new W)));
          v[0].second->occupySite(site);
          s->initializeWalkers(v);
          return v[0].second;
        };
        for (int k = 0; k < 3; ++k)
          for (int tries = 0; tries < 50 && s->getClusterIdOfSite(a[k]) == constants::unassignedId; ++tries) {
            auto w = put(k, a[k]);
            for (int h = 0; h < 200 && !drain(w->getIdOfSiteCurrentlyOccupying()) && s->getClusterIdOfSite(a[k]) == constants::unassignedId; ++h) s->hop(k, w);
            s->removeWalkerFromSystem(k, w);
          }
        for (int k = 0; k < 3; ++k) {
          int c = s->getClusterIdOfSite(a[k]);
          if (c == constants::unassignedId) { formed = 0; continue; }
          auto w = put(7 + k, a[k]);
          double total = w->getDwellTime();
          while (s->getClusterIdOfSite(w->getPotentialSite()) == c) { s->hop(7 + k, w); total += w->getDwellTime(); }
          s->removeWalkerFromSystem(7 + k, w);
          u[t].push_back(total / (s->getTimeIncrementOfClusters()[c] * s->getResolutionOfClusters()[c]));
        }
        auto w = put(3, lone);
        double sum = 0;
        for (auto& r : rates[lone]) sum += r.second;
        u[t].push_back(w->getDwellTime() * sum);
      }
      long long near = 1000000000, same = 1;
      for (size_t x = 0; x < u[0].size(); ++x) {
        for (size_t y = 0; y < x; ++y) near = std::min(near, (long long)std::llabs(differ(u[0][x], u[0][y])));
        if (x >= u[1].size() || std::llabs(differ(u[0][x], u[1][x])) > 100) same = 0;
      }
      j.i("formed", formed).i("near", near).i("same", same);
    });
  } else if (l.op == "PNew") { proto.reset(new CoarseGrainSystem); pw.clear(); J("PNew").i("thr", 0).out(); }
  else if (l.op == "PSetT") { int v = l.n(); guarded(J("PSetT").i("v", v), [&](J&) { proto->setTimeResolution(v == -777 ? std::nan("") : v * 0.25); }); }
  else if (l.op == "PGetT") { guarded(J("PGetT"), [&](J& j) { j.i("v", fx(proto->getTimeResolution() * 4)); }); }
  else if (l.op == "PSeed") { int v = l.n(); guarded(J("PSeed").i("v", v), [&](J&) { proto->setRandomSeed(v); }); }
  else if (l.op == "PInit") { guarded(J("PInit").a("ids", vl(ids)), [&](J&) { proto->initializeSystem(rates); }); }
  else if (l.op == "PMin") { int v = l.n(); guarded(J("PMin").i("v", v), [&](J&) { proto->setMinCoarseGrainIterationThreshold(v); }); }
  else if (l.op == "PWalkers") {  // k walkers on the given sites; no site: never placed
    int n = l.n();
    VL ws, at;
    std::vector<std::pair<int, std::shared_ptr<Walker>>> v;
    for (int k = 0; k < n; ++k) {
      int w = l.n(), has = l.n(), s = l.n();
      if (has) for (auto& o : pw) if (o.second->getIdOfSiteCurrentlyOccupying() == s) return true;  // taken
      v.push_back(std::make_pair(w, std::shared_ptr<Walker>(new W)));
      ws.push_back(w);
      at.push_back(has ? s : -1999999999);
      if (has) v.back().second->occupySite(s);
    }
    guarded(J("PWalkers").a("ws", ws).a("at", at), [&](J& j) {
      proto->initializeWalkers(v);
      int ok = 1;
      for (auto& w : v) {
        pw[w.first] = w.second;
        if (!drain(w.second->getIdOfSiteCurrentlyOccupying())) ok = ok && w.second->getDwellTime() > 0 && ids.count(w.second->getPotentialSite());
      }
      j.i("ok", ok);
    });
  } else if (l.op == "PHop") {
    int w = l.n();
    if (!pw.count(w) || drain(pw[w]->getIdOfSiteCurrentlyOccupying())) return true;
    guarded(J("PHop").i("w", w), [&](J& j) { proto->hop(w, pw[w]); j.i("pos", pw[w]->getIdOfSiteCurrentlyOccupying()); });
  } else if (l.op == "PVisits") { int s = l.n(); guarded(J("PVisits").i("s", s), [&](J& j) { j.i("v", proto->getVisitFrequencyOfSite(s)); }); }
  else if (l.op == "PCluster") { int s = l.n(); guarded(J("PCluster").i("s", s), [&](J& j) { int c = proto->getClusterIdOfSite(s); j.i("c", c == constants::unassignedId ? -1 : c); }); }
  else if (l.op == "PClusters") { guarded(J("PClusters"), [&](J& j) { j.i("n", proto->getClusters().size()).i("r", proto->getResolutionOfClusters().size()).i("t", proto->getTimeIncrementOfClusters().size()); }); }
  else return false;
  return true;
}
