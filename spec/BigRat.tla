------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers for TLC, whose own integers have 32 bits.  A      *)
(* rational is the string "n" or "n/d" in lowest terms with d > 1.  The     *)
(* operators are evaluated by the Java class vkover.BigRat (see java/); the *)
(* definitions here only say that TLC must not be run without it.           *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers

LOCAL Missing == Assert(FALSE, "BigRat: the Java override is not loaded")

IsRat(s) == Missing                  \* is s the representation of a rational (and not "nan", "inf", "-inf")?
RInt(i) == Missing                   \* the rational of an integer (or a rational in lowest terms)
RAdd(a, b) == Missing
RSub(a, b) == Missing
RMul(a, b) == Missing
RDiv(a, b) == Missing                \* b # "0"
RLe(a, b) == Missing
RLt(a, b) == Missing
RLn(a) == Missing                    \* a > 0; within 1e-15
RExp(a) == Missing                   \* relative error below 1e-15
RSum(s) == Missing                   \* the sum of a sequence of rationals
RShort(a) == Missing                 \* a rational that is relatively within 2^-80 of a
RNear(a, b, rtol, atol) == Missing   \* |a - b| <= atol + rtol * max(|a|, |b|)
Hash(s, n) == Missing                \* an arbitrary fixed function from sequences of integers to 0..n-1

RNeg(a) == RSub("0", a)
RAbs(a) == IF RLt(a, "0") THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
=============================================================================
