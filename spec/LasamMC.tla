------------------------------ MODULE LasamMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification: all sequences of up to     *)
(* DEPTH calls from a small alphabet, for the small columns below.  The    *)
(* properties are checked as invariants of the specification itself, and   *)
(* every maximal sequence is written out to be replayed into the real code.*)
(***************************************************************************)
EXTENDS Lasam, Json, IOUtils

CfgNo == atoi(IOEnv.CFGNO)
Depth == atoi(IOEnv.DEPTH)

VARIABLES i,     \* the instance (Lasam!NewState)
          h,     \* the calls so far
          done   \* written out
vars == <<i, h, done>>

Keys == <<"verbosity", "forcing_file", "soil_params_file", "layer_thickness", "initial_psi", "timestep", "endtime", "forcing_resolution",
          "ponded_depth_max", "use_closed_form_G", "layer_soil_type", "max_valid_soil_types", "wilting_point_psi", "field_capacity_psi",
          "giuh_ordinates", "adaptive_timestep", "sft_coupled", "soil_z", "calib_params">>
Loam == <<"0.06", "0.4", "1.00E-02", "1.47", "0.504">>
Sand == <<"0.05", "0.38", "4.00E-02", "3.18", "26.64">>
Clay == <<"0.1", "0.46", "1.00E-02", "1.25", "0.612">>
Silt == <<"0.05", "0.49", "1.00E-02", "1.68", "1.836">>

Steep == <<"0.05", "0.45", "0.05", "2.90", "3.7">>
Flat == <<"0.08", "0.42", "0.004", "1.12", "0.21">>

Plain == [lt |-> <<"10">>, st |-> <<1>>, tab |-> <<Loam, Sand, Clay, Silt>>, maxst |-> "15", psi0 |-> "500", ts |-> <<"3600", "[sec]">>,
          et |-> <<"100000", "[hr]">>, fr |-> <<"3600", "[sec]">>, pm |-> "0", wp |-> "15495.0", fc |-> "340.9", giuh |-> <<"0.5", "0.3", "0.2">>,
          closed |-> "false", adapt |-> "false", sft |-> "", calib |-> "", z |-> <<>>, cls |-> "std", keep |-> FALSE, table |-> "",
          x |-> [order |-> Keys, cm |-> "[cm]", names |-> "plain", verb |-> "none", num |-> "plain", fill |-> "none"]]

Configs == <<
  (* 1: three thin layers, fronts cross and leave the column within hours *)
  [Plain EXCEPT !.lt = <<"5", "5", "5">>, !.st = <<1, 4, 2>>, !.psi0 = "100", !.pm = "1.1"],
  (* 2: a single layer *)
  [Plain EXCEPT !.lt = <<"20">>, !.psi0 = "2000", !.pm = "2"],
  (* 3: sand over clay, closed-form drive, two timesteps per Update *)
  [Plain EXCEPT !.lt = <<"10", "20">>, !.st = <<2, 3>>, !.closed = "true", !.ts = <<"1800", "[sec]">>],
  (* 4: layers that share a soil, recalibrated on the way *)
  [Plain EXCEPT !.lt = <<"5", "10">>, !.st = <<1, 1>>, !.pm = "0.5"],
  (* 5: freezing and thawing *)
  [Plain EXCEPT !.lt = <<"5", "10">>, !.st = <<4, 1>>, !.sft = "true", !.z = <<"2.5", "5", "10", "15">>],
  (* 6: nearly saturated clay, forcing steps of two hours, adaptive timestep *)
  [Plain EXCEPT !.lt = <<"5", "5">>, !.st = <<3, 1>>, !.psi0 = "5", !.pm = "2", !.fr = <<"2", "[hr]">>, !.adapt = "true"],
  (* 7: four layers *)
  [Plain EXCEPT !.lt = <<"5", "5", "7.25", "10">>, !.st = <<4, 1, 4, 3>>, !.psi0 = "50", !.pm = "5"],
  (* 8: the end time falls into the run *)
  [Plain EXCEPT !.lt = <<"8", "12">>, !.st = <<1, 4>>, !.ts = <<"900", "[sec]">>, !.et = <<"9000", "[sec]">>, !.psi0 = "100"],
  (* 9: the calls themselves: forcing, single values, calibration, in every order; all variables are read after each *)
  [Plain EXCEPT !.lt = <<"6", "9">>, !.st = <<4, 1>>, !.pm = "0.4", !.psi0 = "150"],
  (* 10: nearly saturated soils that differ much, so that columns fill up and drain *)
  [Plain EXCEPT !.lt = <<"4", "6">>, !.st = <<1, 2>>, !.tab = <<Steep, Flat>>, !.psi0 = "1", !.pm = "1.5", !.ts = <<"900", "[sec]">>, !.fr = <<"900", "[sec]">>],
  (* 11: three layers, frozen, recalibrated, with ponding, two timesteps per Update *)
  [Plain EXCEPT !.lt = <<"4", "6", "8">>, !.st = <<1, 4, 1>>, !.pm = "0.7", !.sft = "true", !.z = <<"4", "7", "10", "18">>, !.ts = <<"1800", "[sec]">>] >>

Cfg == Configs[CfgNo]

F(pr, pet) == <<"F", "0", pr, pet>>
Alphabet == LET wet == {F("0", "0"), F("0", "1"), F("3", "0.1"), F("15", "0"), F("90", "0")}
            IN IF CfgNo = 4 THEN {F("0", "1"), F("15", "0"), F("60", "0.1")}
                                 \cup {<<"C", "0", "van_genuchten_n", "1.3", "1.8">>, <<"C", "0", "smcmax", "0.45", "0.41">>}
               ELSE IF CfgNo = 5 THEN {F("0", "1"), F("15", "0"), F("90", "0")}
                                 \cup {<<"SET", "0", "soil_temperature_profile", "273.0", "273.1", "280", "281">>,
                                       <<"SET", "0", "soil_temperature_profile", "285", "280", "273.05", "273.1">>}
               ELSE IF CfgNo = 9 THEN {F("20", "0.5"), F("0", "2"), <<"UPD", "0">>, <<"SET", "0", "precipitation_rate", "45">>, <<"SETIX", "0", "potential_evapotranspiration_rate", "0", "1.5">>,
                                       <<"SETIX", "0", "smcmax", "1", "0.47">>, <<"SET", "0", "ponded_depth_max", "0.1">>, <<"SET", "0", "field_capacity", "200">>,
                                       <<"FLAG", "0", "1">>, <<"FLAG", "0", "0">>}
               ELSE IF CfgNo = 10 THEN {F("0", "0"), F("0", "3"), F("2", "0.01"), F("12", "0"), F("60", "0")}
               ELSE IF CfgNo = 11 THEN {F("0", "1"), F("25", "0"), <<"C", "0", "hydraulic_conductivity", "0.9", "0.3", "2">>, <<"C", "0", "ponded_depth_max", "0.2">>,
                                        <<"SET", "0", "soil_temperature_profile", "273.0", "280", "273.1", "271">>,
                                        <<"SET", "0", "soil_temperature_profile", "280", "272.9", "280", "280">>}
               ELSE wet

SetVar(s, v, x) ==
  IF v = "precipitation_rate" THEN [s EXCEPT !.pr = x[1]] ELSE IF v = "potential_evapotranspiration_rate" THEN [s EXCEPT !.pe = x[1]]
  ELSE IF v = "soil_temperature_profile" THEN [s EXCEPT !.T = x] ELSE IF v = "ponded_depth_max" THEN [s EXCEPT !.calpm = x[1]]
  ELSE IF v = "field_capacity" THEN [s EXCEPT !.calfc = x[1]]
  ELSE [s EXCEPT !.cal = [L \in 1..s.e.nl |-> [s.cal[L] EXCEPT ![v] = x[L]]]]
(* an Update with the inputs set so far *)
Enabled(s, o) == o[1] = "UPD" => Leq(N0, s.pr) /\ Leq(N0, s.pe)

Apply(s, o) ==
  LET args == [j \in 1..(Len(o) - 3) |-> Num(o[3 + j])]
  IN IF o[1] = "F" THEN [UpdateOf(s, Num(o[3]), Num(o[4])) EXCEPT !.pr = Num(o[3]), !.pe = Num(o[4])]
     ELSE IF o[1] = "UPD" THEN UpdateOf(s, s.pr, s.pe)
     ELSE IF o[1] = "C" THEN [SetVar(s, o[3], args) EXCEPT !.on = TRUE, !.out = NoFlow]
     ELSE IF o[1] = "FLAG" THEN [s EXCEPT !.on = (o[3] = "1"), !.out = NoFlow]
     ELSE IF o[1] = "SETIX" THEN
       [IF o[3] \in {"smcmax"} THEN [s EXCEPT !.cal[atoi(o[4]) + 1] = [@ EXCEPT ![o[3]] = Num(o[5])]] ELSE SetVar(s, o[3], <<Num(o[5])>>) EXCEPT !.out = NoFlow]
     ELSE [SetVar(s, o[3], args) EXCEPT !.out = NoFlow]

Reads == <<"soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts", "soil_num_wetting_fronts", "surface_runoff", "giuh_runoff",
           "soil_storage", "total_discharge", "infiltration", "percolation", "actual_evapotranspiration", "precipitation_rate",
           "potential_evapotranspiration_rate", "smcmax", "field_capacity", "ponded_depth_max">>
ReadAll == IF CfgNo = 9 THEN [j \in 1..Len(Reads) |-> <<"GET", "0", Reads[j]>>] ELSE <<>>
Calls(o) == IF o[1] = "C" THEN << <<"SET", "0", o[3]>> \o SubSeq(o, 4, Len(o)), <<"FLAG", "0", "1">> >> ELSE <<o>> \o ReadAll
RECURSIVE AllCalls(_)
AllCalls(s) == IF s = <<>> THEN <<>> ELSE Calls(Head(s)) \o AllCalls(Tail(s))

Emit(s) == Serialize(ToJson([fam |-> "mc", scens |-> << [ins |-> <<Cfg>>, ops |-> AllCalls(s) \o << <<"FIN", "0">> >>] >>]) \o "\n", IOEnv.OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == i = NewState(Cfg) @@ [pr |-> FromInt(-1), pe |-> FromInt(-1)] /\ h = <<>> /\ done = FALSE

Call == /\ ~ done /\ Len(h) < Depth /\ i.irr = {}
        /\ \E o \in Alphabet :
             /\ Enabled(i, o)
             /\ i' = Apply(i, o)
             /\ h' = Append(h, o)
        /\ UNCHANGED done
Leaf == /\ ~ done /\ (Len(h) = Depth \/ i.irr # {})
        /\ Emit(h)
        /\ done' = TRUE /\ UNCHANGED <<i, h>>
Next == Call \/ Leaf
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- the properties *)
Small == FromStr("1e-9")
Regular == i.irr = {}
Tot == i.tot
WaterConserved == Regular =>
  Close(((i.start \oplus Tot.pr) \oplus i.chg), ((Mass(i.e, i.F) \oplus i.pond) \oplus (Tot.ro \oplus (Tot.aet \oplus Tot.perc))), FromStr("1e-8"), N0)
RunoffRouted == Regular => Close(Tot.ro, Tot.q \oplus SumSeq(i.q), Small, N0)
ProfileOrdered == Regular => /\ LayersInOrder(i.e, i.F) /\ DepthsOrdered(i.F) /\ InOwnLayer(i.e, i.F) /\ BottomFronts(i.e, i.F)
                             /\ (i.out # NoFlow => WetOverDry(i.F) /\ SpeedsSane(i.F))
ProfileConsistent == Regular => (i.on \/ i.out = NoFlow \/ (InPores(i.e, i.F) /\ HeadsFinite(i.F) /\ OnCurve(i.e, i.F) /\ SameHead(i.e, i.F) /\ KOnCurve(i.e, i.F)))
SurfaceBounds == Regular => /\ Leq(N0, i.out.ro) /\ Leq(N0, i.out.in \oplus Small) /\ Leq(N0, i.pond) /\ Leq(i.pond, Max(i.e.pmax, i.calpm) \oplus Small)
                            /\ (i.on \/ Leq(Mass(i.e, i.F), MaxMass(i.e) \oplus Small))
EvapBounds == Regular => Leq(Opp(Small), i.out.aet) /\ Leq(i.out.aet, i.out.pet \oplus FromStr("1e-6"))
PercBounds == Regular => Leq(N0, i.out.perc)
TimeAdvances == Regular => Leq(N0, i.t) /\ (i.nts > 0 => Lt(N0, i.t))
FactorsBounded == \A L \in 1..i.e.nl : Leq(FromStr("0.05"), i.e.ff[L]) /\ Leq(i.e.ff[L], N1)
=============================================================================
