-------------------------------- MODULE Dbl --------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers for TLC.                              *)
(*                                                                         *)
(* LGAR-C's state is real valued.  TLC has no reals, so a number is the    *)
(* pair <<hi, lo>> of the two signed 32-bit halves of its IEEE-754 bit     *)
(* pattern: a plain TLA+ value that TLC can store, compare and fingerprint.*)
(* The recorder writes the same encoding, so a recorded value enters the   *)
(* specification bit for bit.  Arithmetic is supplied by the Java class    *)
(* Dbl (java/Dbl.java), loaded by TLC in place of the definitions below;   *)
(* these only say what the operators denote.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Double == Int \X Int

(* arithmetic: the correctly rounded result *)
Add(a, b) == CHOOSE c \in Double : TRUE
Sub(a, b) == CHOOSE c \in Double : TRUE
Mul(a, b) == CHOOSE c \in Double : TRUE
Div(a, b) == CHOOSE c \in Double : TRUE
Pow(a, b) == CHOOSE c \in Double : TRUE
Exp(a)    == CHOOSE c \in Double : TRUE
Sqrt(a)   == CHOOSE c \in Double : TRUE
Opp(a)    == CHOOSE c \in Double : TRUE
Abs(a)    == CHOOSE c \in Double : TRUE
Min(a, b) == CHOOSE c \in Double : TRUE      \* fmin: a NaN argument is ignored
Max(a, b) == CHOOSE c \in Double : TRUE      \* fmax
Floor(a)  == CHOOSE n \in Int : TRUE         \* the integer part, as an Int

(* comparison *)
Lt(a, b)  == CHOOSE c \in BOOLEAN : TRUE
Leq(a, b) == CHOOSE c \in BOOLEAN : TRUE
EqD(a, b) == CHOOSE c \in BOOLEAN : TRUE     \* numeric equality (0 = -0)
IsNaN(a)  == CHOOSE c \in BOOLEAN : TRUE
IsInf(a)  == CHOOSE c \in BOOLEAN : TRUE
(* |a - b| <= atol + rtol * max(|a|, |b|); false when either is NaN *)
Close(a, b, atol, rtol) == CHOOSE c \in BOOLEAN : TRUE

(* conversion *)
FromStr(s) == CHOOSE c \in Double : TRUE     \* decimal literal
FromInt(n) == CHOOSE c \in Double : TRUE
Str(a)     == CHOOSE s \in STRING : TRUE     \* shortest decimal that reads back

(* Sum of a sequence, left to right. *)
SumSeq(s)  == CHOOSE c \in Double : TRUE

a \oplus b   == Add(a, b)
a \ominus b  == Sub(a, b)
a \otimes b  == Mul(a, b)
a \oslash b  == Div(a, b)
a \prec b    == Lt(a, b)
a \preceq b  == Leq(a, b)

N0 == FromInt(0)
N1 == FromInt(1)
N2 == FromInt(2)
N3 == FromInt(3)
=============================================================================
