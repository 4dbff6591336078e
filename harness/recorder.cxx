// Trace recorder: drives the real BmiLGAR through its public BMI calls, following a script produced
// from the specification, and writes one JSON event per call.  Every scenario runs in its own child
// process, so an abort, an assertion, an exit() or a hang of the model is itself an observable event.
//
// Doubles are written as [hi,lo]: the two signed 32-bit halves of the IEEE-754 bit pattern (module Dbl).
#include "runner.hxx"
#include "bmi_lgar.hxx"

#ifdef FRAMEWORK   // instances as the framework gets them, from the library
extern "C" { BmiLGAR *bmi_model_create(); void bmi_model_destroy(BmiLGAR *); }
static BmiLGAR *create() { return bmi_model_create(); }
static void destroy(BmiLGAR *b) { bmi_model_destroy(b); }
#else
static BmiLGAR *create() { return new BmiLGAR(); }
static void destroy(BmiLGAR *b) { delete b; }
#endif

static const char *OUTS[] = {"precipitation","potential_evapotranspiration","actual_evapotranspiration",
  "surface_runoff","giuh_runoff","soil_storage","total_discharge","infiltration","percolation",
  "groundwater_to_stream_recharge","mass_balance"};

// full observation of one instance
static std::string snap(BmiLGAR *b, bool outs) {
  model_state *s = b->get_model();
  std::string r = "\"F\":[";
  int n = 0;
  for (wetting_front *w = s->head; w != NULL && n < 2000; w = w->next, n++) {
    if (n) r += ",";
    r += "{\"d\":" + D(w->depth_cm) + ",\"t\":" + D(w->theta) + ",\"p\":" + D(w->psi_cm) + ",\"k\":" + D(w->K_cm_per_h)
       + ",\"z\":" + D(w->dzdt_cm_per_h) + ",\"l\":" + std::to_string(w->layer_num) + ",\"n\":" + std::to_string(w->front_num)
       + ",\"b\":" + std::to_string((int)w->to_bottom) + "}";
  }
  r += "]";
  lgar_mass_balance_variables &m = s->lgar_mass_balance;
  lgar_bmi_parameters &p = s->lgar_bmi_params;
  r += ",\"pond\":" + D(m.volon_timestep_cm) + ",\"pp\":" + D(p.precip_previous_timestep_cm);
  r += ",\"dt\":" + D(p.timestep_h) + ",\"time\":" + D(b->GetCurrentTime()) + ",\"nts\":" + std::to_string(p.timesteps);
  r += ",\"ff\":" + DA(p.frozen_factor + 1, p.num_layers);
  r += ",\"flag\":" + std::to_string((int)(p.calib_params_flag != 0));
  double led[] = {m.volstart_cm, m.volprecip_cm, m.volin_cm, m.volend_cm, m.volon_cm, m.volrunoff_cm, m.volrunoff_giuh_cm,
                  m.volQ_cm, m.volAET_cm, m.volPET_cm, m.volrech_cm, m.volchange_calib_cm};
  r += ",\"led\":" + DA(led, 12);
  std::vector<double> sp;
  for (int l = 1; l <= p.num_layers; l++) {
    int k = p.layer_soil_type[l];
    if (p.is_invalid_soil_type) { for (int q = 0; q < 9; q++) sp.push_back(0); continue; }
    soil_properties_ &q = s->soil_properties[k];
    double v[] = {q.theta_r, q.theta_e, q.vg_alpha_per_cm, q.vg_n, q.vg_m, q.Ksat_cm_per_h, q.bc_lambda, q.bc_psib_cm, q.h_min_cm};
    sp.insert(sp.end(), v, v + 9);
  }
  r += ",\"soil\":" + DA(sp.data(), (int)sp.size());
  r += ",\"fc\":" + D(p.field_capacity_psi_cm) + ",\"pmax\":" + D(p.ponded_depth_max_cm);
  if (outs) {
    std::vector<double> v;
    for (const char *o : OUTS) { double x = 0; b->GetValue(o, &x); v.push_back(x); }
    r += ",\"out\":" + DA(v.data(), 11);
    int nw = 0; b->GetValue("soil_num_wetting_fronts", &nw);
    r += ",\"nw\":" + std::to_string(nw);
    if (nw < 0 || nw > 1999) nw = 0;
    std::vector<double> a(nw + 1), c(nw + 1);
    if (nw > 0) { b->GetValue("soil_moisture_wetting_fronts", a.data()); b->GetValue("soil_depth_wetting_fronts", c.data()); }
    r += ",\"wt\":" + DA(a.data(), nw) + ",\"wd\":" + DA(c.data(), nw);
  }
  return r;
}

static std::string cfgsnap(BmiLGAR *b) {
  lgar_bmi_parameters &p = b->get_model()->lgar_bmi_params;
  std::string r = "\"nl\":" + std::to_string(p.num_layers) + ",\"cum\":" + DA(p.cum_layer_thickness_cm + 1, p.num_layers);
  r += ",\"st\":[";
  for (int l = 1; l <= p.num_layers; l++) r += (l > 1 ? "," : "") + std::to_string(p.layer_soil_type[l]);
  r += "]";
  r += ",\"wp\":" + D(p.wilting_point_psi_cm) + ",\"psi0\":" + D(p.initial_psi_cm) + ",\"fres\":" + D(p.forcing_resolution_h);
  r += ",\"end\":" + D(b->GetEndTime()) + ",\"step\":" + D(b->GetTimeStep());
  r += ",\"closed\":" + std::to_string((int)p.use_closed_form_G) + ",\"adapt\":" + std::to_string((int)p.adaptive_timestep);
  r += ",\"sft\":" + std::to_string((int)(p.sft_coupled != 0)) + ",\"bad\":" + std::to_string((int)p.is_invalid_soil_type);
  r += ",\"ncell\":" + std::to_string(p.num_cells_temp);
  r += ",\"ord\":" + DA(p.giuh_ordinates + 1, p.num_giuh_ordinates);
  return r;
}

static std::string meta(BmiLGAR *b) {
  std::string r = "\"name\":" + J(b->GetComponentName()) + ",\"t0\":" + D(b->GetStartTime()) + ",\"tu\":" + J(b->GetTimeUnits());
  std::vector<std::string> in = b->GetInputVarNames(), out = b->GetOutputVarNames(), all = in;
  r += ",\"nin\":" + std::to_string(b->GetInputItemCount()) + ",\"nout\":" + std::to_string(b->GetOutputItemCount());
  all.insert(all.end(), out.begin(), out.end());
  for (const char *c : {"smcmax","smcmin","van_genuchten_n","van_genuchten_alpha","hydraulic_conductivity","field_capacity","ponded_depth_max"})
    all.push_back(c);
  r += ",\"in\":[";
  for (size_t i = 0; i < in.size(); i++) r += (i ? "," : "") + J(in[i]);
  r += "],\"outn\":[";
  for (size_t i = 0; i < out.size(); i++) r += (i ? "," : "") + J(out[i]);
  r += "],\"vars\":[";
  for (size_t i = 0; i < all.size(); i++) {
    std::string v = all[i];
    int g = b->GetVarGrid(v);
    int sh[3] = {-7, -7, -7};
    b->GetGridShape(g, sh);
    r += (i ? ",{" : "{");
    r += "\"v\":" + J(v) + ",\"g\":" + std::to_string(g) + ",\"ty\":" + J(b->GetVarType(v)) + ",\"is\":" + std::to_string(b->GetVarItemsize(v))
       + ",\"u\":" + J(b->GetVarUnits(v)) + ",\"nb\":" + std::to_string(b->GetVarNbytes(v)) + ",\"loc\":" + J(b->GetVarLocation(v))
       + ",\"gs\":" + std::to_string(b->GetGridSize(g)) + ",\"gr\":" + std::to_string(b->GetGridRank(g)) + ",\"sh\":["
       + std::to_string(sh[0]) + "," + std::to_string(sh[1]) + "]}";
  }
  return r + "]";
}

static std::string readcap(long from) {
  fflush(stdout);
  std::ifstream f(CAP); f.seekg(from);
  std::stringstream ss; ss << f.rdbuf(); return ss.str();
}
static long capsize() { fflush(stdout); std::ifstream f(CAP, std::ios::ate | std::ios::binary); return (long)f.tellg(); }

static double num(const std::string &txt, const char *key) {
  size_t p = txt.rfind(key);
  if (p == std::string::npos) return 0.0 / 0.0;
  p = txt.find('=', p);
  if (p == std::string::npos) return 0.0 / 0.0;
  return strtod(txt.c_str() + p + 1, NULL);
}

static int run_scenario(const std::vector<std::string> &lines) {
  std::map<int, BmiLGAR *> I;
  std::map<int, std::map<std::string, void *>> held;   // pointers to the variables of fixed size, obtained once after initialization
  for (const std::string &ln : lines) {
    std::istringstream is(ln);
    std::string op; is >> op;
    if (op == "SCEN") { std::string id; is >> id; ev("{\"e\":\"scen\",\"id\":" + J(id) + "}"); continue; }
    if (op == "RAW") { std::string rest; std::getline(is, rest); ev(rest.substr(1)); continue; }   // annotation: intended configuration
    int k; is >> k;
    std::string K = "\"k\":" + std::to_string(k);
    try {
      if (op == "NEW") {
        std::string cfg; is >> cfg;
        if (!I.count(k)) I[k] = create();      // an object that was finalized (AGAIN) is initialized again
        BmiLGAR *b = I[k]; held.erase(k);
        b->Initialize(cfg);
        std::vector<std::string> vars = b->GetInputVarNames();
        for (const std::string &v : b->GetOutputVarNames()) if (v != "soil_moisture_wetting_fronts" && v != "soil_depth_wetting_fronts") vars.push_back(v);
        for (const char *v : {"smcmax","smcmin","van_genuchten_n","van_genuchten_alpha","hydraulic_conductivity","field_capacity","ponded_depth_max"}) vars.push_back(v);
        for (const std::string &v : vars) try { held[k][v] = b->GetValuePtr(v); } catch (std::exception &) {}
        ev("{\"e\":\"init\"," + K + "," + cfgsnap(b) + "," + snap(b, false) + "}");
      } else if (op == "SET") {
        std::string v; int n; is >> v >> n;
        std::vector<double> a(n);
        for (int i = 0; i < n; i++) { std::string t; is >> t; a[i] = strtod(t.c_str(), NULL); }
        I[k]->SetValue(v, a.data());
        std::vector<double> back(n + 1); I[k]->GetValue(v, back.data());
        ev("{\"e\":\"set\"," + K + ",\"v\":" + J(v) + ",\"x\":" + DA(a.data(), n) + ",\"back\":" + DA(back.data(), n) + "}");
      } else if (op == "SETIX") {
        std::string v; int n; is >> v >> n;
        std::vector<int> ix(n); std::vector<double> a(n);
        for (int i = 0; i < n; i++) { std::string t; is >> ix[i] >> t; a[i] = strtod(t.c_str(), NULL); }
        I[k]->SetValueAtIndices(v, ix.data(), n, a.data());
        std::vector<double> bk(n); I[k]->GetValueAtIndices(v, bk.data(), ix.data(), n);
        std::string s = "[";
        for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(ix[i]);
        ev("{\"e\":\"setix\"," + K + ",\"v\":" + J(v) + ",\"ix\":" + s + "],\"x\":" + DA(a.data(), n) + ",\"back\":" + DA(bk.data(), n) + "}");
      } else if (op == "GET") {
        std::string v; is >> v;
        int nb = I[k]->GetVarNbytes(v), isz = I[k]->GetVarItemsize(v);
        int n = isz > 0 ? nb / isz : 0;
        if (I[k]->GetVarType(v) == "int") {
          std::vector<int> a(n + 1); I[k]->GetValue(v, a.data());
          std::string s = "[";
          for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(a[i]);
          int one = -9, zero = 0; I[k]->GetValueAtIndices(v, &one, &zero, 1);
          int *h = held[k].count(v) ? (int *)held[k][v] : NULL;
          ev("{\"e\":\"geti\"," + K + ",\"v\":" + J(v) + ",\"x\":" + s + "],\"rev\":[" + std::to_string(one) + "],\"ptr\":["
             + std::to_string(*(int *)I[k]->GetValuePtr(v)) + "],\"held\":[" + std::to_string(h ? *h : a[0]) + "]}");
        } else {
          std::vector<double> a(n + 1), c(n + 1); I[k]->GetValue(v, a.data());
          std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = n - 1 - i;
          I[k]->GetValueAtIndices(v, c.data(), ix.data(), n);
          // some entries only, one of them twice
          std::vector<int> some; for (int i = 0; i < n; i += 2) some.push_back(n - 1 - i);
          if (n) some.push_back(some[0]);
          std::vector<double> d(some.size() + 1); I[k]->GetValueAtIndices(v, d.data(), some.data(), (int)some.size());
          std::string six = "[";
          for (size_t i = 0; i < some.size(); i++) six += (i ? "," : "") + std::to_string(some[i]);
          ev("{\"e\":\"get\"," + K + ",\"v\":" + J(v) + ",\"x\":" + DA(a.data(), n) + ",\"rev\":" + DA(c.data(), n)
             + ",\"some\":" + DA(d.data(), (int)some.size()) + ",\"ix\":" + six + "],\"held\":" + (held[k].count(v) ? DA((double *)held[k][v], n) : DA(a.data(), n))
             + ",\"ptr\":" + DA((double *)I[k]->GetValuePtr(v), n) + "}");
        }
      } else if (op == "TRY") {           // a name that is not a variable of the model
        std::string v; is >> v; std::string got = "none"; double x[8] = {0};
        try { I[k]->GetValue(v, x); } catch (std::exception &) { got = "error"; }
        std::string got2 = "none";
        try { I[k]->SetValue(v, x); } catch (std::exception &) { got2 = "error"; }
        int ix[1] = {0}; int refused = 0;
        try { (void)I[k]->GetValuePtr(v); } catch (std::exception &) { refused++; }
        try { I[k]->GetValueAtIndices(v, x, ix, 1); } catch (std::exception &) { refused++; }
        try { I[k]->SetValueAtIndices(v, ix, 1, x); } catch (std::exception &) { refused++; }
        if (refused != 3) got2 = "none";
        ev("{\"e\":\"try\"," + K + ",\"v\":" + J(v) + ",\"r\":" + J(got) + ",\"w\":" + J(got2) + "}");
      } else if (op == "FLAG") {
        int f; is >> f; I[k]->get_model()->lgar_bmi_params.calib_params_flag = f;
        ev("{\"e\":\"flag\"," + K + ",\"f\":" + std::to_string(f) + "}");
      } else if (op == "META") {
        ev("{\"e\":\"meta\"," + K + "," + meta(I[k]) + "}");
      } else if (op == "UPD" || op == "UNTIL") {
        double pr, pe; I[k]->GetValue("precipitation_rate", &pr); I[k]->GetValue("potential_evapotranspiration_rate", &pe);
        double t = 0;
        if (op == "UPD") I[k]->Update(); else { is >> t; I[k]->UpdateUntil(t); }
        ev(std::string("{\"e\":\"") + (op == "UPD" ? "upd" : "until") + "\"," + K + ",\"pr\":" + D(pr) + ",\"pe\":" + D(pe) + ",\"until\":" + D(t) + "," + snap(I[k], true) + "}");
      } else if (op == "CRC") {           // compact observation (used when only equality of runs matters)
        ev("{\"e\":\"obs\"," + K + "," + snap(I[k], true) + "}");
      } else if (op == "FIN" || op == "AGAIN") {
        long from = capsize();
        model_state *s = I[k]->get_model(); (void)s;
        I[k]->Finalize();
        std::string t = readcap(from);
        double v[] = {num(t, "Initial water in soil"), num(t, "Total precipitation"), num(t, "Total infiltration"), num(t, "Final water in soil"),
          num(t, "Surface ponded water"), num(t, "Surface runoff"), num(t, "GIUH runoff"), num(t, "GIUH water"), num(t, "Total percolation"),
          num(t, "Total AET"), num(t, "Total PET"), num(t, "Total discharge"), num(t, "Vol change"), num(t, "Global balance")};
        ev("{\"e\":\"fin\"," + K + ",\"sum\":" + DA(v, 14) + "}");
        if (op == "FIN") { destroy(I[k]); I.erase(k); }
      } else { fprintf(stderr, "recorder: bad line %s\n", ln.c_str()); return 97; }
    } catch (std::exception &x) {
      ev("{\"e\":\"exc\"," + K + ",\"at\":" + J(op) + ",\"what\":" + J(x.what()) + "}");
      return 0;
    }
  }
  ev("{\"e\":\"end\"}");
  return 0;
}
