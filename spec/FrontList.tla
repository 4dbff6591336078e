----------------------------- MODULE FrontList -----------------------------
(***************************************************************************)
(* The list of wetting fronts (src/linked_list.cxx), as the model's other  *)
(* parts rely on it: a sequence of fronts, numbered 1..n from the surface  *)
(* down.  A front is represented by a tag; the recorder (harness/units.cxx)*)
(* makes every field of a front from its tag.                              *)
(*                                                                         *)
(* Exhaustive exploration: all sequences of DEPTH calls on lists of up to  *)
(* MaxFronts fronts, each written out to be replayed into the real code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

(* the operations *)
InsertFirst(L, t) == <<t>> \o L
InsertAt(L, k, t) == SubSeq(L, 1, k - 1) \o <<t>> \o SubSeq(L, k, Len(L))
DeleteAt(L, k)    == SubSeq(L, 1, k - 1) \o SubSeq(L, k + 1, Len(L))
Find(L, k)        == IF k \in 1..Len(L) THEN L[k] ELSE 0           \* 0: no such front
AfterDelete(L, k) == Find(DeleteAt(L, k), k)                       \* the front that took its place
(* insertion is defined behind an existing front, or as the first of an empty list; only a front that exists is deleted *)
CanInsert(L, k)   == k \in 2..(Len(L) + 1) \/ (L = <<>> /\ k >= 1)
Inserted(L, k, t) == IF L = <<>> /\ k > 1 THEN L ELSE InsertAt(L, k, t)

VARIABLES L, C, h, done, g      \* the list, its latest copy, the calls so far, written out, and the list before the latest call
vars == <<L, C, h, done, g>>
MaxFronts == 5
Depth == atoi(IOEnv.DEPTH)
Fresh == Len(h) + 1             \* every call has a tag of its own

Init == L = <<>> /\ C = <<>> /\ h = <<>> /\ done = FALSE /\ g = <<>>
Calls ==
  {<<"FIRST", ToString(Fresh)>> : x \in {y \in {1} : Len(L) < MaxFronts}}
  \cup {<<"INS", ToString(k), ToString(Fresh)>> : k \in {k \in 1..(MaxFronts + 1) : CanInsert(L, k) /\ Len(L) < MaxFronts /\ (L # <<>> \/ k <= 2)}}
  \cup {<<"DEL", ToString(k)>> : k \in 1..Len(L)}
  \cup (IF C = L THEN {} ELSE {<<"COPY">>})
Apply(o) == IF o[1] = "FIRST" THEN InsertFirst(L, Fresh) ELSE IF o[1] = "INS" THEN Inserted(L, atoi(o[2]), Fresh)
            ELSE IF o[1] = "DEL" THEN DeleteAt(L, atoi(o[2])) ELSE L
Call == /\ ~ done /\ Len(h) < Depth
        /\ \E o \in Calls : L' = Apply(o) /\ h' = Append(h, o) /\ C' = IF o[1] = "COPY" THEN L ELSE C
        /\ g' = L /\ UNCHANGED done
Leaf == /\ ~ done /\ Len(h) = Depth
        /\ Serialize(ToJson([fam |-> "units", scens |-> << [ops |-> h] >>]) \o "\n", IOEnv.OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ done' = TRUE /\ UNCHANGED <<L, C, h, g>>
Next == Call \/ Leaf
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- properties *)
Range(s) == {s[j] : j \in 1..Len(s)}
NoFrontTwice == Cardinality(Range(L)) = Len(L)
Bounded == Len(L) <= MaxFronts
(* a call adds at most one front or removes at most one; all others stay, in their order *)
Others(A, B) == SelectSeq(A, LAMBDA x : x \in Range(B))
OneAtATime == ~ done => /\ Len(L) - Len(g) \in {-1, 0, 1}
                        /\ Others(L, g) = Others(g, L)
                        /\ Cardinality((Range(L) \ Range(g)) \cup (Range(g) \ Range(L))) <= 1
CopyIsOlder == Range(C) \subseteq 1..Len(h)
=============================================================================
