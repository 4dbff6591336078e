From 6240a496c620d70c61576b0aac7218d03612a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 01/30] fix: merge a wetting front with every front it has
 passed, not only the first one

---
 src/lgar.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..be60e38 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1618,6 +1618,10 @@ extern void lgar_merge_wetting_fronts(int *soil_type, double *frozen_factor, str
         printf ("Deleting wetting front (after) ... \n");
         listPrint(*head);
       }
+
+      // the merged wetting front may have passed the next wetting front as well, so check it again before moving on
+      wf--;
+      continue;
     }
     
     current = current->next;
-- 
2.43.0


From 371b422f8c7552097993abd3ce8a03a1fde7108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 02/30] fix: repeat layer and domain crossing until every
 wetting front lies within its layer

---
 include/all.hxx |  3 +++
 src/lgar.cxx    | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..e100e52 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -317,6 +317,9 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 // checks if dry over wet wetting front exists or not
 extern bool lgar_check_dry_over_wet_wetting_fronts(struct wetting_front* head);
 
+// checks if a wetting front lies below the next wetting front of the same layer
+extern bool lgar_check_overlapping_wetting_fronts(struct wetting_front* head);
+
 // finds free drainage wetting front (the deepest wetting front with psi value closer to zero; saturated in terms of psi)
 extern int wetting_front_free_drainage(struct wetting_front* head);
 
diff --git a/src/lgar.cxx b/src/lgar.cxx
index be60e38..4b39086 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1474,6 +1474,19 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
   bottom_boundary_flux_cm += lgar_wetting_front_cross_domain_boundary(cum_layer_thickness_cm[num_layers], soil_type,
 								      frozen_factor, head, soil_properties);
 
+  /* a merge can push the merged wetting front past the bottom of its layer, and more than one wetting front can pass
+     the lower boundary in the same timestep; repeat until no wetting front lies below the next one in its layer */
+  for (int pass = 0; pass < number_of_wetting_fronts + num_layers && lgar_check_overlapping_wetting_fronts(*head); pass++) {
+    lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+    lgar_wetting_fronts_cross_layer_boundary(num_layers, cum_layer_thickness_cm, soil_type, frozen_factor,
+					     head, soil_properties);
+    if (lgar_check_dry_over_wet_wetting_fronts(*head))
+      lgar_fix_dry_over_wet_wetting_fronts(&mass_change, cum_layer_thickness_cm, soil_type, head, soil_properties);
+    lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+    bottom_boundary_flux_cm += lgar_wetting_front_cross_domain_boundary(cum_layer_thickness_cm[num_layers], soil_type,
+									frozen_factor, head, soil_properties);
+  }
+
   *volin_cm = bottom_boundary_flux_cm;
   
   // reset current to head to fix any mass balance issues and dry-over-wet wetting fronts conditions
@@ -1934,6 +1947,20 @@ extern bool lgar_check_dry_over_wet_wetting_fronts(struct wetting_front* head)
   return false;
 }
       
+// ############################################################################################
+/* checks if a wetting front lies below the next wetting front of the same layer, i.e., it still has to
+   be merged or to cross a layer (or the domain) boundary */
+// ############################################################################################
+extern bool lgar_check_overlapping_wetting_fronts(struct wetting_front* head)
+{
+  for (struct wetting_front *current = head; current->next != NULL; current = current->next) {
+    if ( (current->depth_cm > current->next->depth_cm) && (current->layer_num == current->next->layer_num) )
+      return true;
+  }
+
+  return false;
+}
+
 // ############################################################################################
 /* The module computes the potential infiltration capacity, fp (in the lgar manuscript),
    potential infiltration capacity = the maximum amount of water that can be inserted into
-- 
2.43.0


From e516e3103616170c7c44defc64ff2b592c6df6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 03/30] fix: use the conductivity of a front's own water
 content and layer when computing its speed

---
 src/lgar.cxx | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4b39086..5f131c2 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2428,16 +2428,6 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
     // copy structure elements into shorter variables names to increase readability
     // WETTING FRONT PROPERTIES
     layer_num    = current->layer_num;    // what layer the front is in
-    K_cm_per_h   = current->K_cm_per_h;   // K(theta)
-
-    if (K_cm_per_h < 0) {
-      printf("K is negative (layer_num, wf_num, K): %d %d %lf \n", layer_num, current->front_num, K_cm_per_h);
-      listPrint(head);
-      printf("Is your n value very close to 1? Very small n values can cause K to become 0. \n");
-      //The parameter n must physically attain a value greater than 1. However, when n is small, and apparently less than 1.02, sometimes n can make K evaluate to 0, for larger values of psi.
-      //So, checking for K_cm_per_h <= 0 has been replaced by checking if K_cm_per_h is negative. K_cm_per_h should never be negative (although perhaps machine precision could make this occur, although we haven't seen it yet), but mathematically can be 0 in some rare cases. 
-      abort();
-    }
 
     depth_cm = current->depth_cm;     // absolute Z to this wetting front measured down from land surface
 
@@ -2453,6 +2443,20 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
 
+    /* K(theta) of the front in the layer it is in now; merging, layer crossing or saturation may have changed theta
+       (or the layer) since it was last computed */
+    current->K_cm_per_h = calc_K_from_Se(calc_Se_from_theta(current->theta,theta_e,theta_r), Ksat_cm_per_h, vg_m);
+    K_cm_per_h          = current->K_cm_per_h;
+
+    if (K_cm_per_h < 0) {
+      printf("K is negative (layer_num, wf_num, K): %d %d %lf \n", layer_num, current->front_num, K_cm_per_h);
+      listPrint(head);
+      printf("Is your n value very close to 1? Very small n values can cause K to become 0. \n");
+      //The parameter n must physically attain a value greater than 1. However, when n is small, and apparently less than 1.02, sometimes n can make K evaluate to 0, for larger values of psi.
+      //So, checking for K_cm_per_h <= 0 has been replaced by checking if K_cm_per_h is negative. K_cm_per_h should never be negative (although perhaps machine precision could make this occur, although we haven't seen it yet), but mathematically can be 0 in some rare cases. 
+      abort();
+    }
+
     next = current->next;    // the next element in the linked list
     if (next == NULL) break; // we're done calculating dZ/dt's because we're at the end of the list
 
-- 
2.43.0


From 1fb1cdd091f404168fac2a8ae521ab9404ecfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 04/30] fix: infiltration capacity uses the frozen factor of
 the layer that takes the water

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 5f131c2..674f716 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2007,7 +2007,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -2024,7 +2024,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
-- 
2.43.0


From 5ae2dc965e98906b9a30cc265d399cda86a65275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 05/30] fix: pair each layer's thickness with its own
 conductivity in the multi-layer front speed

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 674f716..cb8cd38 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2509,7 +2509,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From 04c7bd141ebd85dd8c1ac62103833f18ba08109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:38 +0000
Subject: [PATCH 06/30] fix: read soil names that contain spaces from the soil
 parameter file

---
 src/lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index cb8cd38..d0bcdab 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2334,7 +2334,9 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    // soil names are enclosed in quotes and can contain spaces (e.g., "Sandy-clay loam")
+    if (sscanf(jstr," \"%29[^\"]\" %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h) != 6)
+      sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     length=strlen(soil_name);
 
     if(length>MAX_SOIL_NAME_CHARS) {
-- 
2.43.0


From bfbfa94fdd80fc41322f551230c99c587452af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:40 +0000
Subject: [PATCH 07/30] fix: read only the bracketed part of a configuration
 value as its unit

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index d0bcdab..35946d6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -251,7 +251,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")-loc_u+1);
     else
       param_unit = "";
 
-- 
2.43.0


From 21bb49600916f3500303c5d53a99a1b959693461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:43 +0000
Subject: [PATCH 08/30] fix: report a missing layer_thickness or soil_z before
 using it

---
 src/lgar.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 35946d6..d9a4320 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -544,6 +544,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     std::cerr<<"          *****         \n";
   }
 
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if (!is_layer_soil_type_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
@@ -593,12 +599,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
   
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if (!is_initial_psi_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set initial_psi. \n";
@@ -664,12 +664,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
-- 
2.43.0


From 3f7e6de3e2a02e7234b6e5edf8f4a5713a99f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:45 +0000
Subject: [PATCH 09/30] fix: do not read past the soil table for soil types the
 model is not valid for

---
 src/lgar.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index d9a4320..72435f9 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -561,7 +561,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    // layers can have a soil type the model is not valid for (see below); the table must have an (empty) entry for those too
+    int max_soil_type = state->lgar_bmi_params.num_soil_types;
+    for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++)
+      max_soil_type = std::max(max_soil_type, state->lgar_bmi_params.layer_soil_type[layer]);
+
+    state->soil_properties = new soil_properties_[max_soil_type+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
-- 
2.43.0


From 9f024e195266b62d99d2f9c92bc27b40c52cd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 10/30] fix: pass the precipitation amount of the forcing
 timestep through for invalid soil types, and advance the time

---
 src/bmi_lgar.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..fc83a85 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,20 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // rate times forcing timestep = amount of water in this timestep [mm]
+    double precip_timestep_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_timestep_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +109,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_timestep_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From 0884cf3109f0e043ccd84564f826b2b0c0f00ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:49 +0000
Subject: [PATCH 11/30] fix: cover the whole forcing timestep when the timestep
 does not divide it

---
 src/bmi_lgar.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index fc83a85..4145466 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -208,6 +208,15 @@ Update()
   state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
   subcycles = state->lgar_bmi_params.forcing_interval;
 
+  // the subtimesteps must cover the whole forcing timestep, otherwise part of the forcing would be dropped; if the timestep
+  // does not divide the forcing resolution, use the largest smaller timestep that does
+  if (state->lgar_bmi_params.forcing_resolution_h - subcycles * subtimestep_h > 1.0e-08) {
+    subcycles++;
+    subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / subcycles;
+    state->lgar_bmi_params.timestep_h       = subtimestep_h;
+    state->lgar_bmi_params.forcing_interval = subcycles;
+  }
+
   if (verbosity.compare("high") == 0) {
     printf("time step size in hours: %lf \n", state->lgar_bmi_params.timestep_h);
   }
-- 
2.43.0


From c3361955f331a0477a116ce77cd443d02c531dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 12/30] fix: UpdateUntil advances the model to the requested
 time

---
 src/bmi_lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 4145466..05c7de5 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -579,7 +579,9 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+
+  while (t - this->GetCurrentTime() > 1.0e-06)
+    this->Update();
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From 82f18e76233f3484a924b71f8850d35314281bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 13/30] fix: lump hourly GIUH ordinates for forcing timesteps
 longer than an hour

---
 src/lgar.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 72435f9..c353258 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -641,7 +641,16 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    // if the forcing timestep is longer than an hour, all the (hourly) ordinates within a forcing timestep are lumped together
+    int hours = int(state->lgar_bmi_params.forcing_resolution_h + 1.0e-08);
+    if (hours > 1) {
+      std::vector<double> giuh_ordinates_lumped((giuh_ordinates_temp.size() - 1 + hours - 1)/hours + 1, 0.0);
+      for (int i=1; i<giuh_ordinates_temp.size(); i++)
+        giuh_ordinates_lumped[(i-1)/hours + 1] += giuh_ordinates_temp[i];
+      giuh_ordinates_temp = giuh_ordinates_lumped;
+    }
+
+    int factor = std::max(int(1.0/state->lgar_bmi_params.forcing_resolution_h + 1.0e-08), 1);
 
     state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-- 
2.43.0


From 155c4884c2ccbcd304f475c4a1ef02ff06f6f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 14/30] fix: define the output variables before the first
 Update

---
 include/bmi_lgar.hxx | 2 +-
 src/bmi_lgar.cxx     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bmi_lgar.hxx b/include/bmi_lgar.hxx
index b29339a..77aa156 100644
--- a/include/bmi_lgar.hxx
+++ b/include/bmi_lgar.hxx
@@ -162,7 +162,7 @@ private:
     double mass_balance_m;
   };
 
-  struct bmi_unit_conversion bmi_unit_conv;
+  struct bmi_unit_conversion bmi_unit_conv = {}; // no fluxes before the first Update
 };
 
 
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 05c7de5..3326cbd 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -55,6 +55,8 @@ Initialize (std::string config_file)
     giuh_runoff_queue[i] = 0.0;
   }
 
+  bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m;
+
 }
 
 /**
-- 
2.43.0


From c8342eb012b16ca03dc9dd6ce7abf858d44f4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:59 +0000
Subject: [PATCH 15/30] fix: calibration updates the parameters derived from
 van Genuchten n and alpha

---
 include/all.hxx  |  3 +++
 src/bmi_lgar.cxx |  1 +
 src/lgar.cxx     | 48 ++++++++++++++++++++++++++++--------------------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index e100e52..555bf59 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -278,6 +278,9 @@ extern double lgar_calc_dry_depth(bool use_closed_form_G, int nint, double times
 extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_types, double wilting_point_psi_cm,
                                     struct soil_properties_ *soil_properties);
 
+// computes the Brooks & Corey parameters of a soil from its van Genuchten parameters
+extern void lgar_set_brooks_corey_params(struct soil_properties_ *soil);
+
 // creates a surficial front (new top most wetting front)
 extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm, double *volin, double dry_depth,
 					double theta1, int *soil_type, double *cum_layer_thickness_cm,
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 3326cbd..fa96919 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -631,6 +631,7 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+    lgar_set_brooks_corey_params(&state->soil_properties[soil]);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
diff --git a/src/lgar.cxx b/src/lgar.cxx
index c353258..e32edd1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2336,7 +2336,6 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
   double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
-  double m,p,lambda;
 
   // open the file
   if((in_vG_params_fptr=fopen(vG_param_file_name,"r"))==NULL) {
@@ -2370,25 +2369,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       vg_m, vg_n, theta_e, theta_r);
 
-    // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
-    if (1.0 < vg_n) {
-      m = 1.0 - 1.0 / vg_n;
-      p = 1.0 + 2.0 / m;
-      soil_properties[soil].bc_lambda  = 2.0 / (p - 3.0);
-      soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
-	(2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
-      assert(0.0 < soil_properties[soil].bc_psib_cm);
-    }
-    else {
-      fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      //error = TRUE;  // TODO FIXME - what todo in this ccase?
-    }
-
-    /* this is the effective capillary drive after */
-    /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
-    /* psi should not be less than this value.  */
-    lambda=soil_properties[soil].bc_lambda;
-    soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+    lgar_set_brooks_corey_params(&soil_properties[soil]);
     num_soils_in_file++;
     soil++;
 
@@ -2402,6 +2383,33 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   return num_soils_in_file;
 }
 
+// ############################################################################################
+/* Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib, and h_min */
+// ############################################################################################
+extern void lgar_set_brooks_corey_params(struct soil_properties_ *soil)
+{
+  double m,p,lambda;
+
+  if (1.0 < soil->vg_n) {
+    m = 1.0 - 1.0 / soil->vg_n;
+    p = 1.0 + 2.0 / m;
+    soil->bc_lambda  = 2.0 / (p - 3.0);
+    soil->bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * soil->vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    assert(0.0 < soil->bc_psib_cm);
+  }
+  else {
+    fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
+    //error = TRUE;  // TODO FIXME - what todo in this ccase?
+  }
+
+  /* this is the effective capillary drive after */
+  /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
+  /* psi should not be less than this value.  */
+  lambda=soil->bc_lambda;
+  soil->h_min_cm = soil->bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+}
+
 // ############################################################################################
 /* code to calculate velocity of fronts
    equations with full description are provided in the lgar paper (currently under review) */
-- 
2.43.0


From 15a3be47a64e994c810db44c2426ac6efd1263cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:32 +0000
Subject: [PATCH 16/30] fix: honour max_valid_soil_types values above the
 default of 15

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index e32edd1..cc060bc 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -351,7 +351,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       continue;
     }
     else if (param_key == "max_valid_soil_types") {
-      state->lgar_bmi_params.num_soil_types = std::min(stoi(param_value), MAX_NUM_SOIL_TYPES);
+      state->lgar_bmi_params.num_soil_types = stoi(param_value);
       is_max_valid_soil_types_set = true;
       continue;
     }
-- 
2.43.0


From 1e463fac322f2e8ab3a506b5a5d6ed76e3232ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:18 +0000
Subject: [PATCH 17/30] fix: do not use a wetting front after deleting it

---
 src/lgar.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index cc060bc..c51ba6c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1228,6 +1228,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
         listDeleteFront(current->front_num, head);
+        current = next; // the front was deleted, do not use it below
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
-- 
2.43.0


From 835c2164ea7c514ebc0b51be5176bf11e5a837f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:18 +0000
Subject: [PATCH 18/30] fix: infiltrate when the ponded depth ends exactly at
 its maximum

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c51ba6c..12e6cc2 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2109,7 +2109,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
 
   if (ponded_depth_max_cm > 0.0 ) {
 
-    if (ponded_depth_temp < ponded_depth_max_cm) {
+    if (ponded_depth_temp <= ponded_depth_max_cm) {
       runoff = 0.0;
       *volin_this_timestep = fmin(*ponded_depth_cm, fp_cm); //PTL: does this code account for the case where volin_this_timestep can not all infiltrate?
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
-- 
2.43.0


From 48ee3f81694b0dac4f705c003e88bbc736b9d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:30 +0000
Subject: [PATCH 19/30] fix: soil_depth_layers gives the depth of each layer's
 bottom in meters

---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 3 ++-
 src/lgar.cxx     | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index 555bf59..cb385b0 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -110,6 +110,7 @@ struct lgar_bmi_parameters
   int    num_wetting_fronts;       // number of wetting fronts
   int    num_cells_temp;           // number of cells of the discretized soil temperature profile
   double *cum_layer_thickness_cm;  // cumulative thickness of layers, allocate memory at run time
+  double *soil_depth_layers_m;     // depth of the bottom of each layer in meters, bmi output variable soil_depth_layers
   double soil_depth_cm;            // depth of the computational domain (i.e., depth of the last/deepest soil layer from the surface)
   double initial_psi_cm;           // model initial (psi) condition
   double timestep_h;               // model timestep in hours
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index fa96919..fad9a8d 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -702,6 +702,7 @@ Finalize()
 
   delete [] state->lgar_bmi_params.layer_thickness_cm;
   delete [] state->lgar_bmi_params.cum_layer_thickness_cm;
+  delete [] state->lgar_bmi_params.soil_depth_layers_m;
   delete [] state->lgar_bmi_params.giuh_ordinates;
   delete [] state->lgar_bmi_params.frozen_factor;
   delete state->lgar_bmi_input_params;
@@ -933,7 +934,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers_m;
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 12e6cc2..f8a2437 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -274,6 +274,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 
       state->lgar_bmi_params.num_layers = vec.size();
 
+      // depth of the bottom of each layer in meters (bmi output)
+      state->lgar_bmi_params.soil_depth_layers_m = new double[vec.size()];
+      for (unsigned int layer=1; layer <= vec.size(); layer++)
+	state->lgar_bmi_params.soil_depth_layers_m[layer-1] = state->lgar_bmi_params.cum_layer_thickness_cm[layer] * state->units.cm_to_m;
+
       state->lgar_bmi_params.soil_depth_cm = state->lgar_bmi_params.cum_layer_thickness_cm[state->lgar_bmi_params.num_layers];
       is_layer_thickness_set = true;
 
-- 
2.43.0


From b08a4b1128397a1c70915abfbc2b6f1c7d6c66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:11 +0000
Subject: [PATCH 20/30] fix: calibrate layers that share a soil type
 independently

---
 src/lgar.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index f8a2437..c64ed4c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -602,6 +602,15 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       }
       std::cerr<<"          *****         \n";
     }
+
+    // give every layer its own copy of its soil properties: layers of the same soil type are calibrated independently
+    struct soil_properties_ *layer_properties = new soil_properties_[state->lgar_bmi_params.num_layers+1]();
+    for (int layer=1; layer<=state->lgar_bmi_params.num_layers; layer++) {
+      layer_properties[layer] = state->soil_properties[state->lgar_bmi_params.layer_soil_type[layer]];
+      state->lgar_bmi_params.layer_soil_type[layer] = layer;
+    }
+    delete [] state->soil_properties;
+    state->soil_properties = layer_properties;
   }
   else {
     stringstream errMsg;
-- 
2.43.0


From da02b51d0921130f9ee05b9bec0201541c1d2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:24 +0000
Subject: [PATCH 21/30] fix: GetGridShape gives the length of the
 (one-dimensional) wetting front and temperature grids

---
 src/bmi_lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index fad9a8d..307d59a 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -843,7 +843,9 @@ GetGridShape(const int grid, int *shape)
   if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+    shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
+  else if (grid == 4) // number of cells of the soil temperature profile
+    shape[0] = this->state->lgar_bmi_params.num_cells_temp;
 }
 
 
-- 
2.43.0


From 4340f014a107aff1a173f9b97795e79bf2a775b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:53 +0000
Subject: [PATCH 22/30] fix: the summary of a run without updates reports the
 water in the soil

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c64ed4c..fa0e14a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -122,7 +122,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   // initialize all global mass balance variables to zero
   state->lgar_mass_balance.volprecip_cm              = 0.0;
   state->lgar_mass_balance.volin_cm                  = 0.0;
-  state->lgar_mass_balance.volend_cm                 = 0.0;
+  state->lgar_mass_balance.volend_cm                 = state->lgar_mass_balance.volstart_cm; // until the first update, all the initial water is in the soil
   state->lgar_mass_balance.volAET_cm                 = 0.0;
   state->lgar_mass_balance.volrech_cm                = 0.0;
   state->lgar_mass_balance.volrunoff_cm              = 0.0;
-- 
2.43.0


From bd51ec7f496a51b2de0b66969ba630fd01d04eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:15 +0000
Subject: [PATCH 23/30] fix: let a soil that dried to a head beyond 1e7 cm take
 up water again

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fa0e14a..81a45ff 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2692,7 +2692,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     if (count_no_mass_change == break_no_mass_change)
       break;
     
-    if (psi_cm_loc > 1e7){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
+    if (psi_cm_loc > 1e7 && new_mass > prior_mass){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
       break;
     }
-- 
2.43.0


From 4d47448a8bd547cc8f20b6354100747ffddd1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:36 +0000
Subject: [PATCH 24/30] fix: a saturated column gives evapotranspiration back
 instead of percolating a negative amount

---
 src/lgar.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 81a45ff..4e950e4 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1397,8 +1397,11 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
     iter++;
     if (iter>1e4) {
       break_flag = TRUE;
-      *AET_demand_cm = *AET_demand_cm + mass_balance_error;
-      actual_ET_demand = *AET_demand_cm;
+      // the soil holds more water than it should if the evapotranspiration could not be taken from it; water that does not fit percolates (below)
+      if (current_mass > mass_timestep) {
+	*AET_demand_cm = fmax(*AET_demand_cm - mass_balance_error, 0.0);
+	actual_ET_demand = *AET_demand_cm;
+      }
       break;
     }
 
-- 
2.43.0


From 3c710d7f542464fc8d14c61b8fd0daa83f6734c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 25/30] fix: the water content at zero head is exactly theta_e

---
 src/soil_funcs.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/soil_funcs.cxx b/src/soil_funcs.cxx
index 7da1adc..84c7ed3 100755
--- a/src/soil_funcs.cxx
+++ b/src/soil_funcs.cxx
@@ -146,6 +146,7 @@ extern double calc_Geff(bool use_closed_form_G, double theta1, double theta2, do
 /**************************************/
 double calc_theta_from_h(double h,double alpha, double m, double n, double theta_e, double theta_r)
 {
+  if (h == 0.0) return theta_e; // exactly saturated, (theta_e-theta_r)+theta_r can differ from theta_e in the last digit
   return(1.0/(pow(1.0+pow(alpha*h,n),m))*(theta_e-theta_r)+theta_r);
 }
 
-- 
2.43.0


From 4964ee6b9eab667b4e1a4fb73a2dc9758508430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:57 +0000
Subject: [PATCH 26/30] fix: do not create a wetting front on a top that has
 just become saturated

---
 src/lgar.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4e950e4..f752590 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2185,6 +2185,11 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
 
   double theta_new;
 
+  if (theta1 + 1.0E-12 >= theta_e) { // the top wetting front got saturated by the preceding movement, nothing fits in
+    *volin = 0.0;
+    return;
+  }
+
   if(dry_depth * delta_theta > (*ponded_depth_cm))  // all the ponded depth enters the soil
     {
       *volin = *ponded_depth_cm;
-- 
2.43.0


From f861cec556e0b6ffe6e061e6062ff41972fe6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:03 +0000
Subject: [PATCH 27/30] fix: inserting a wetting front into the middle of the
 list ends

listInsertFront never advanced past the front behind the new one when it
renumbered the fronts below, so any insertion before an existing front looped
forever.
---
 src/linked_list.cxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 0176d41..6e35332 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -315,12 +315,8 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
       link->next = previous->next ;
       previous->next = link;
 
-      while(link->next != NULL) { // increment all front numbers
-	current = link->next;
+      for (current = link->next; current != NULL; current = current->next) // increment all front numbers
 	current->front_num++;
-	previous = current;
-	current = current->next;
-      }
 
       return link;
     }
-- 
2.43.0


From bb3a887a7d083bdb77f65f412ef96c2accbf56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:57 +0000
Subject: [PATCH 28/30] fix: a soil at the dry end of its retention curve takes
 up water again

---
 src/lgar.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index f752590..02bd22f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2690,8 +2690,10 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     
     if (fabs(psi_cm_loc - psi_cm_loc_prev) < 1E-15 && factor < 1E-13) break;
 
-    // another condition to avoid infinite loop when the error does not improve
-    if (fabs(delta_mass - delta_mass_prev) < 1E-15)
+    // another condition to avoid infinite loop when the error does not improve; not at the dry end of the retention curve,
+    // where the mass hardly changes with the head although there is water left to be taken up
+    bool taking_up_water_at_dry_end = new_mass < prior_mass && psi_cm_loc > 1.0E4;
+    if (fabs(delta_mass - delta_mass_prev) < 1E-15 && !taking_up_water_at_dry_end)
       count_no_mass_change++;
     else
       count_no_mass_change = 0;
-- 
2.43.0


From 1e4c56c02bd5f0e0e93c0b2f92a480a9124b9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:55 +0000
Subject: [PATCH 29/30] fix: the standalone program runs all forcing steps up
 to the end time, whatever the rounding

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..dad9687 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -77,7 +77,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep + 1.0e-08); // total number of time steps, add 1.0e-08 to prevent truncation error
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From 1fbe60c7fcba41084a0cad9261f85a799972ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:25 +0000
Subject: [PATCH 30/30] fix: an object that is initialized again reports no
 fluxes before its first update

---
 src/bmi_lgar.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 307d59a..0e99088 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -55,6 +55,7 @@ Initialize (std::string config_file)
     giuh_runoff_queue[i] = 0.0;
   }
 
+  bmi_unit_conv = {}; // no fluxes before the first Update, also of an object that is initialized again
   bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m;
 
 }
-- 
2.43.0

