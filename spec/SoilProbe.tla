----------------------------- MODULE SoilProbe -----------------------------
(***************************************************************************)
(* Points at which the soil hydraulic relations are probed: a soil, and    *)
(* heads, saturations and pairs of water contents over their whole ranges. *)
(* TLC generates them (simulation mode, seeded).                           *)
(***************************************************************************)
EXTENDS Soil, TLC, Json, IOUtils
VARIABLES ph, s, ops
vars == <<ph, s, ops>>
NProbe == atoi(IOEnv.NUPD)

Pick(x) == x[RandomElement(1..Len(x))]
One(S) == CHOOSE x \in S : TRUE
Digits(a, b) == ToString(RandomElement(a..b))
AnySoil(x) == << "0.0" \o Digits(10, 99), "0." \o Digits(310, 790), Pick(<<"0.00" \o Digits(10, 99), "0.0" \o Digits(10, 99), "0." \o Digits(10, 30)>>),
                 Pick(<<"1.0" \o Digits(2, 9), "1." \o Digits(10, 60), "1." \o Digits(11, 99), "2." \o Digits(10, 99), Digits(3, 5) \o "." \o Digits(10, 99)>>),
                 Pick(<<"0.0" \o Digits(10, 99), "0." \o Digits(10, 99), Digits(1, 9) \o "." \o Digits(1, 99), Digits(10, 40)>>) >>
SomeHead(x) == Pick(<<"0", Digits(1, 99) \o "e-" \o Digits(8, 13), Digits(1, 99) \o "e-" \o Digits(1, 8), Digits(1, 999) \o "." \o Digits(0, 99), Digits(1, 99999), Digits(1, 99) \o "e" \o Digits(3, 6)>>)
Sat(x) == Pick(<<"1", "0." \o Digits(1, 999), "0.9999" \o Digits(1, 9999), "0.00" \o Digits(1, 99), "0." \o Digits(100000, 999999)>>)
(* the water content at saturation x *)
At(x) == LET q == FromStr(x) IN Str(FromStr(s[1]) \oplus (q \otimes (FromStr(s[2]) \ominus FromStr(s[1]))))
Ordered(x, y) == IF Lt(FromStr(x), FromStr(y)) THEN <<x, y>> ELSE <<y, x>>
Probe(k) == IF k <= 3 THEN <<"THETA", SomeHead(0)>> ELSE IF k <= 5 THEN <<"SEH", SomeHead(0)>> ELSE IF k <= 7 THEN <<"HSE", Sat(0)>> ELSE IF k = 8 THEN <<"SET", At(Sat(0))>>
            ELSE IF k <= 11 THEN <<"KSE", Sat(0)>>
            ELSE One({ <<"GEFF", Pick(<<"0", "0", "1">>)>> \o p : p \in { One({ Ordered(At(q[1]), At(q[2])) : q \in {<<Pick(<<"0." \o Digits(10, 999), "0." \o Digits(10, 999), "0." \o Digits(10, 999), Sat(0), "1">>), Sat(0)>>} }) } })

Init == ph = "soil" /\ s = <<>> /\ ops = <<>>
PickSoil == ph = "soil" /\ ph' = "probe" /\ s' = AnySoil(0) /\ UNCHANGED ops
Go == ph = "probe" /\ Len(ops) < NProbe /\ (\E k \in {RandomElement(1..15)} : \E o \in {Probe(k)} : ops' = Append(ops, o)) /\ UNCHANGED <<ph, s>>
Write == /\ ph = "probe" /\ Len(ops) = NProbe /\ ph' = "done"
         /\ Serialize(ToJson([fam |-> "units", scens |-> << [ops |-> << <<"SOIL">> \o s >> \o ops] >>]) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
         /\ UNCHANGED <<s, ops>>
Next == PickSoil \/ Go \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
