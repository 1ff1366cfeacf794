------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers.  A rational is written as an integer or as a    *)
(* string ("12", "-3/7", "1.5e-07"); results are normalised strings.  TLC  *)
(* evaluates these operators with java/BigRat.java (the class of the same  *)
(* name on its class path overrides them), because TLC's own integers have *)
(* 32 bits.  The definitions below are only for reading the meaning; the   *)
(* module MC_BigRat checks the Java evaluation against integer arithmetic. *)
(***************************************************************************)
Add(x, y)  == CHOOSE z : z = <<"x + y", x, y>>
Sub(x, y)  == CHOOSE z : z = <<"x - y", x, y>>
Mul(x, y)  == CHOOSE z : z = <<"x * y", x, y>>
Div(x, y)  == CHOOSE z : z = <<"x / y", x, y>>
Neg(x)     == CHOOSE z : z = <<"- x", x>>
AbsR(x)    == CHOOSE z : z = <<"|x|", x>>
Leq(x, y)  == CHOOSE z : z = <<"x <= y", x, y>>
Lt(x, y)   == CHOOSE z : z = <<"x < y", x, y>>
EqR(x, y)  == CHOOSE z : z = <<"x = y as numbers", x, y>>
FloorR(x)  == CHOOSE z : z = <<"largest integer <= x", x>>
FloorI(x)  == CHOOSE z : z = <<"the same as a TLA+ integer", x>>
PowR(x, k) == CHOOSE z : z = <<"x to the integer k", x, k>>
SumR(s)    == CHOOSE z : z = <<"sum of a sequence", s>>
DotR(s, t) == CHOOSE z : z = <<"sum of products", s, t>>
MaxR(s)    == CHOOSE z : z = <<"largest element of a sequence", s>>
MinR(s)    == CHOOSE z : z = <<"smallest element of a sequence", s>>
Sig(x, k)  == CHOOSE z : z = <<"x rounded to k significant digits", x, k>>
IsNum(x)   == CHOOSE z : z = <<"x denotes a finite number", x>>
Close(x, y, rtol, atol) == CHOOSE z : z = <<"|x-y| <= atol + rtol*max(|x|,|y|)", x, y, rtol, atol>>
=============================================================================
