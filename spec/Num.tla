-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The numeric tower the specification is written over.  TLC has no real   *)
(* numbers, so the operators below are given a meaning by Java module      *)
(* overrides (java/slav): integers stay TLC integers, everything else is   *)
(* an IEEE-754 double.  Infix operators are polymorphic (int op int is an  *)
(* int, except "/", which is always real division).  All are total: a      *)
(* numeric failure is NaN, and a comparison with NaN is FALSE.             *)
(***************************************************************************)
LOCAL Undefined == CHOOSE x : FALSE

a + b == Undefined
a - b == Undefined
a * b == Undefined
a / b == Undefined
a \div b == Undefined
a % b == Undefined
-. a == Undefined
a < b == Undefined
a \leq b == Undefined
a > b == Undefined
a \geq b == Undefined
a \doteq b == Undefined        \* numeric equality across int and real
a .. b == Undefined

R(s) == Undefined              \* real literal: R("1.5e-3"), or conversion
Sin(a) == Undefined
Cos(a) == Undefined
Tan(a) == Undefined
Asin(a) == Undefined
Acos(a) == Undefined
Atan2(y, x) == Undefined
Sqrt(a) == Undefined
Exp(a) == Undefined
Ln(a) == Undefined
Pow(a, b) == Undefined
Floor(a) == Undefined
Trunc(a) == Undefined
Round(a) == Undefined          \* to nearest, halves away from zero
Fmod(a, b) == Undefined        \* C fmod
Abs(a) == Undefined
Max(a, b) == Undefined
Min(a, b) == Undefined
F32(a) == Undefined            \* rounded to single precision
Finite(a) == Undefined
IsNaN(a) == Undefined
IsInt(a) == Undefined            \* a whole number of the integer kind
IsReal(a) == Undefined           \* a number of the real kind
Ulp(a) == Undefined
NextUp(a) == Undefined
NextDown(a) == Undefined
Int(a) == Undefined            \* integral real to integer
Same(a, b) == Undefined        \* identical values or sequences of values; NaN is NaN
Sum(f) == Undefined            \* sum of a finite function or sequence
MaxAbs(f) == Undefined
Tup(f) == Undefined            \* the same sequence, evaluated
Fold(op(_, _), base, seq) == Undefined   \* op(... op(op(base, seq[1]), seq[2]) ..., seq[n])
Rnd(a, b, c) == Undefined      \* counter-based pseudo-random [0,1)
RndInt(a, b, c, n) == Undefined

\* binding to files and to the run
LoadTrace(x) == Undefined
EmitSession(s) == Undefined
EmitDone(x) == Undefined
Table(name) == Undefined
Param(name) == Undefined
Ref(call, item) == Undefined   \* argument: result `item` of call `call` of the same session
Chars(s) == Undefined          \* a string as the sequence of its characters
Concat(ss) == Undefined        \* strings joined
=============================================================================
