------------------------------- MODULE Chaos --------------------------------
(***************************************************************************)
(* One-dimensional maps and the chaos modems built on them.  Values are    *)
(* micro-units.  A generator is a machine with one real variable x; it     *)
(* starts at x0 and its k-th output is the k-th iterate (the initial value *)
(* itself is not output).  Chaotic orbits cannot be followed in fixed      *)
(* point, so a logged orbit is judged step by step: each output must be    *)
(* the map of the logged output before it, within the rounding of the log. *)
(***************************************************************************)
EXTENDS Num, BigFix

M == 1000000
\* (a * b) / 10^6, |a|, |b| <= 4 * 10^6 (|error| <= 2)
MulM(a, b) ==
  LET s == Sgn(a) * Sgn(b)  p == Abs(a)  q == Abs(b) IN
  s * ((((p \div 1000) * (q \div 1000)))
       + ((p \div 1000) * (q % 1000) + (p % 1000) * (q \div 1000)) \div 1000)
\* a rational parameter mn/md times a value
MulR(v, mn, md) == (v \div md) * mn + ((v % md) * mn) \div md

Logistic(mn, md, x) == MulR(MulM(x, M - x), mn, md)
Cheb(x) == LET x2 == MulM(x, x) IN 3 * MulM(x2, x) - 2 * x
Tent(mn, md, x) == 2 * MulR(M - Abs(x), mn, md) - M
Bernoulli(mn, md, x) == MulR(x, mn, md) + (IF x < 0 THEN M ELSE -M)

MapOf(m, x) == CASE m.k = "logistic" -> Logistic(m.mn, m.md, x)
                 [] m.k = "chebyshev" -> Cheb(x)
                 [] m.k = "tent" -> Tent(m.mn, m.md, x)
                 [] m.k = "bernoulli" -> Bernoulli(m.mn, m.md, x)
\* how far the map of a logged value can be from the logged map of the value: the slope
\* of the map times half a unit, and our own rounding
MapTol(m) == CASE m.k = "logistic" -> 2 * (Abs(m.mn) \div m.md + 1) + 6
               [] m.k = "chebyshev" -> 14
               [] OTHER -> 2 * (Abs(m.mn) \div m.md + 1) + 4
Follows(m, x, y) == Near(y, MapOf(m, x), MapTol(m))

\* Near its beginning an orbit can be followed exactly: x is a number of 24 decimals with a
\* sign; err (in 10^-16) bounds what double precision may have made of it so far, growing
\* with the slope of the map.  Once it passes 10^-8 only the step by step judgement is left.
One7 == BMicro(M)
ExactMap(m, x) ==
  CASE m.k = "logistic" -> [n |-> FALSE, a |-> BDiv(BTimes(BMul(x.a, BSub(One7, x.a)), m.mn), m.md)]
    [] m.k = "chebyshev" -> LET c == BTimes(BMul(x.a, x.a), 3)  two == BMicro(2 * M) IN   \* x (3 x^2 - 2)
                            [n |-> IF BLeq(two, c) THEN x.n ELSE ~x.n, a |-> BMul(x.a, BAbsDiff(c, two))]
Slope100(m, v) == \* of the map at v micro, in hundredths, rounded up
  CASE m.k = "logistic" -> (MulR(Abs(M - 2 * v), m.mn, m.md)) \div 10000 + 2
    [] m.k = "chebyshev" -> Abs(9 * MulM(v, v) - 2 * M) \div 10000 + 2
ErrMax == 100000000
NextErr(m, v, err) == LET s == Slope100(m, v) IN
  (IF err < 1000000 THEN (err * s) \div 100 ELSE (err \div 100 + 1) * s) + 16
SignedMicro(x) == IF x.n THEN -BToMicro(x.a) ELSE BToMicro(x.a)
RECURSIVE ExactFrom(_, _, _, _, _)
ExactFrom(m, outs, i, x, err) ==
  IF i > Len(outs) \/ err > ErrMax THEN TRUE ELSE
  LET y == ExactMap(m, x) IN
  IF Near(outs[i], SignedMicro(y), 1) THEN ExactFrom(m, outs, i + 1, y, NextErr(m, SignedMicro(x), err)) ELSE FALSE
\* outs (all, from the first one) begins the orbit of m from x0 micro
ExactStart(m, x0, outs) == ExactFrom(m, outs, 1, [n |-> x0 < 0, a |-> BMicro(Abs(x0))], 2)

\* the interval that traps the orbit, when there is one
Trapped(m, x0) ==
  \/ m.k = "logistic" /\ m.mn >= 0 /\ m.mn <= 4 * m.md /\ x0 >= 0 /\ x0 <= M
  \/ m.k = "chebyshev" /\ x0 >= -M /\ x0 <= M
InTrap(m, y) == y # NonFinite /\ y <= M /\ (IF m.k = "logistic" THEN y >= 0 ELSE y >= -M)
\* initial values a generator accepts
AcceptsX0(m, x0) == x0 <= M /\ (IF m.k = "logistic" THEN x0 >= 0 ELSE x0 >= -M)

\* the modems' generators
Gen == [k |-> "logistic", mn |-> 39, md |-> 10]
GenOne == 100000
GenZero == 150000
\* all later values of these orbits lie between the images of the critical point
GenMin == 95062
=============================================================================
