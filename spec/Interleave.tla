----------------------------- MODULE Interleave ----------------------------
(***************************************************************************)
(* Two models in one process.  In the specification they share nothing, so *)
(* what one does cannot depend on the other: every interleaving of every   *)
(* pair of histories of DEPTH calls (and the Finalize of either) must give *)
(* each of them what it gives alone.  TLC enumerates them all; each is     *)
(* written out as three runs (the first alone, the second alone, both).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Keys == <<"verbosity", "forcing_file", "soil_params_file", "layer_thickness", "initial_psi", "timestep", "endtime", "forcing_resolution",
          "ponded_depth_max", "use_closed_form_G", "layer_soil_type", "max_valid_soil_types", "wilting_point_psi", "field_capacity_psi",
          "giuh_ordinates", "adaptive_timestep", "sft_coupled", "soil_z", "calib_params">>
A == [lt |-> <<"5", "7">>, st |-> <<1, 2>>, tab |-> << <<"0.06", "0.4", "1.00E-02", "1.47", "0.504">>, <<"0.05", "0.49", "1.00E-02", "1.68", "1.836">> >>,
      maxst |-> "15", psi0 |-> "120", ts |-> <<"3600", "[sec]">>, et |-> <<"1000", "[hr]">>, fr |-> <<"3600", "[sec]">>, pm |-> "0.5", wp |-> "15495.0", fc |-> "340.9",
      giuh |-> <<"0.5", "0.3", "0.2">>, closed |-> "false", adapt |-> "false", sft |-> "", calib |-> "", z |-> <<>>, cls |-> "std", keep |-> TRUE, table |-> "",
      x |-> [order |-> Keys, cm |-> "[cm]", names |-> "plain", verb |-> "none", num |-> "plain", fill |-> "none"]]
B == [A EXCEPT !.lt = <<"10", "3", "6">>, !.st = <<2, 1, 3>>, !.tab = << <<"0.1", "0.46", "1.00E-02", "1.25", "0.612">>, <<"0.05", "0.38", "4.00E-02", "3.18", "26.64">>,
                                                                        <<"0.08", "0.44", "2.00E-02", "1.42", "0.3348">> >>,
               !.psi0 = "30", !.pm = "2", !.ts = <<"1800", "[sec]">>, !.closed = "true", !.adapt = "true", !.giuh = <<"0.2", "0.8">>, !.x.verb = "high"]
Cfg == <<A, B>>
(* what each of them may do *)
Acts(k) == LET f(pr, pet) == << <<"F", ToString(k - 1), pr, pet>> >>
           IN {f("40", "0.2"), f("0", "1")}
              \cup { << <<"SET", ToString(k - 1), "smcmax">> \o SubSeq(<<"0.45", "0.47", "0.43">>, 1, Len(Cfg[k].lt)), <<"FLAG", ToString(k - 1), "1">>,
                        <<"F", ToString(k - 1), "15", "0">> >> }

VARIABLES hist, pos, seq, done
vars == <<hist, pos, seq, done>>
Init == hist \in [1..2 -> [1..Depth -> 1..3]] /\ pos = <<0, 0>> /\ seq = <<>> /\ done = FALSE
Act(k, j) == LET S == Acts(k)
                 s1 == CHOOSE x \in S : Len(x) = 3
                 s2 == CHOOSE x \in S : Len(x) = 1 /\ x[1][3] = "40"
                 s3 == CHOOSE x \in S : Len(x) = 1 /\ x[1][3] = "0"
             IN <<s1, s2, s3>>[hist[k][j]]
Turn(k) == /\ pos[k] <= Depth
           /\ pos' = [pos EXCEPT ![k] = @ + 1]
           /\ seq' = seq \o (IF pos[k] < Depth THEN Act(k, pos[k] + 1) ELSE << <<"CMP", ToString(k - 1), "P15", "alone">>, <<"FIN", ToString(k - 1)>> >>)
           /\ UNCHANGED <<hist, done>>
RECURSIVE All(_, _)
All(k, j) == IF j > Depth THEN <<>> ELSE Act(k, j) \o All(k, j + 1)
Alone(k) == [ins |-> [j \in 1..2 |-> IF j = k THEN Cfg[j] ELSE [Cfg[j] EXCEPT !.table = "unused"]],
             ops |-> All(k, 1) \o << <<"SAVE", ToString(k - 1)>>, <<"FIN", ToString(k - 1)>> >>]
Leaf == /\ ~ done /\ pos = <<Depth + 1, Depth + 1>> /\ done' = TRUE
        /\ Serialize(ToJson([fam |-> "mc", scens |-> << Alone(1), Alone(2), [ins |-> Cfg, ops |-> seq] >>]) \o "\n", IOEnv.OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ UNCHANGED <<hist, pos, seq>>
Next == Turn(1) \/ Turn(2) \/ Leaf
Spec == Init /\ [][Next]_vars
(* the calls of either keep their order *)
InOrder == \A k \in 1..2 : SelectSeq(seq, LAMBDA o : o[2] = ToString(k - 1) /\ o[1] = "F")
                             = SelectSeq(SubSeq(All(k, 1), 1, Len(All(k, 1))), LAMBDA o : o[1] = "F") \/ pos[k] < Depth
=============================================================================
