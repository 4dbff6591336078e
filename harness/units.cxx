// Drives two parts of LGAR-C below the model interface: the soil hydraulic relations (src/soil_funcs.cxx) and the list of
// wetting fronts (src/linked_list.cxx).  One event per call.
//   SOIL tr te a n ks      parameters for the calls that follow
//   THETA h | SEH h | HSE se | SET theta | KSE se | GEFF closed theta_below theta_above
//   FIRST tag | INS k tag | DEL k | COPY     on a list of fronts; every field of a front is made from its tag
// usage: units SCRIPT OUT SCRATCH [timeout_s]
#include "runner.hxx"
#include "all.hxx"
#include <math.h>

static double fd(int t) { return t + 0.25; }
static double ft(int t) { return 0.01 * t; }
static double fp(int t) { return 1000.0 + t; }
static double fk(int t) { return 0.5 * t; }
static double fz(int t) { return 100.0 + t; }

static std::string show(wetting_front *h) {
  std::string r = "[";
  int n = 0;
  for (wetting_front *w = h; w != NULL && n < 100; w = w->next, n++) {
    int t = (int)floor(w->depth_cm);
    bool whole = w->depth_cm == fd(t) && w->theta == ft(t) && w->layer_num == t % 3 + 1 && w->to_bottom == (t % 2 == 0);
    bool filled = whole && w->psi_cm == fp(t) && w->K_cm_per_h == fk(t) && w->dzdt_cm_per_h == fz(t);
    r += (n ? "," : "") + std::string("{\"t\":") + std::to_string(t) + ",\"n\":" + std::to_string(w->front_num) + ",\"whole\":" + (whole ? "1" : "0")
       + ",\"filled\":" + (filled ? "1" : "0") + ",\"z0\":" + (w->dzdt_cm_per_h == 0.0 ? "1" : "0") + "}";
  }
  return r + "]";
}
static int tag(wetting_front *w) { return w == NULL ? 0 : (int)floor(w->depth_cm); }

static int run_scenario(const std::vector<std::string> &lines) {
  double tr = 0, te = 0, a = 0, n = 0, ks = 0, m = 0, lam = 0, pb = 0, hm = 0;
  wetting_front *head = NULL, *copy = NULL;
  verbosity = "none";
  for (const std::string &ln : lines) {
    std::stringstream in(ln);
    std::string op; in >> op;
    if (op == "SCEN") { std::string s; in >> s; ev("{\"e\":\"scen\",\"s\":" + J(s) + "}"); continue; }
    std::vector<double> x; std::string w;
    while (in >> w) x.push_back(strtod(w.c_str(), NULL));
    double y = 0;
    if (op == "SOIL") {
      tr = x[0]; te = x[1]; a = x[2]; n = x[3]; ks = x[4];
      m = 1.0 - 1.0 / n;
      double p = 1.0 + 2.0 / m;
      lam = 2.0 / (p - 3.0);
      pb = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) / (2.0 * a * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
      hm = pb * (2.0 + 3.0 / lam) / (1.0 + 3.0 / lam);
      ev("{\"e\":\"soil\",\"x\":" + DA(x.data(), 5) + "}");
      continue;
    }
    if (op == "FIRST" || op == "INS" || op == "DEL" || op == "COPY") {
      wetting_front *r = NULL;
      int k = x.size() > 0 ? (int)x[0] : 0, t = x.size() > 1 ? (int)x[1] : 0;
      if (op == "FIRST") { t = k; k = 1; listInsertFirst(fd(t), ft(t), 1, t % 3 + 1, t % 2 == 0, &head); r = head; }
      if (op == "INS") r = listInsertFront(fd(t), ft(t), k, t % 3 + 1, t % 2 == 0, &head);
      if (op == "DEL") r = listDeleteFront(k, &head);
      if (op == "COPY") { if (copy != NULL) listDelete(copy); copy = listCopy(head); }
      std::string s = "{\"e\":" + J(op) + ",\"k\":" + std::to_string(k) + ",\"t\":" + std::to_string(t) + ",\"r\":" + std::to_string(tag(r))
                    + ",\"L\":" + show(head) + ",\"C\":" + show(copy) + ",\"len\":" + std::to_string(listLength(head)) + ",\"find\":[";
      int len = listLength(head);
      for (int q = 0; q <= len + 1; q++) s += (q ? "," : "") + std::to_string(tag(listFindFront(q, head, NULL)));
      s += "],\"findc\":[";
      if (head != NULL && copy != NULL) for (int q = 0; q <= listLength(copy) + 1; q++) s += (q ? "," : "") + std::to_string(tag(listFindFront(q, head, copy)));
      ev(s + "]}");
      if ((op == "FIRST" || op == "INS") && r != NULL) { r->psi_cm = fp(t); r->K_cm_per_h = fk(t); r->dzdt_cm_per_h = fz(t); }
      continue;
    }
    if (op == "THETA") y = calc_theta_from_h(x[0], a, m, n, te, tr);
    else if (op == "SEH") y = calc_Se_from_h(x[0], a, m, n);
    else if (op == "HSE") y = calc_h_from_Se(x[0], a, m, n);
    else if (op == "SET") y = calc_Se_from_theta(x[0], te, tr);
    else if (op == "KSE") y = calc_K_from_Se(x[0], ks, m);
    else if (op == "GEFF" || op == "GINT") y = calc_Geff(x[0] != 0, x[1], x[2], te, tr, a, n, m, hm, ks, 120, lam, pb);
    else { fprintf(stderr, "units: bad line %s\n", ln.c_str()); return 97; }
    ev("{\"e\":" + J(op) + ",\"x\":" + DA(x.data(), (int)x.size()) + ",\"y\":" + D(y) + "}");
  }
  if (head != NULL) listDelete(head);
  if (copy != NULL) listDelete(copy);
  ev("{\"e\":\"end\"}");
  return 0;
}
