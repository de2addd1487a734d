---------------------------------- MODULE Gen ----------------------------------
(* Common parts of the scenario generators.  A generator enumerates cases (or   *)
(* walks the specification) and emits concrete scenarios for the harness.       *)
EXTENDS Prim, FiniteSets, SequencesExt
Seed == PropInt("seed")
Thorough == PropInt("thorough") = 1
Scenario(id, steps) == [id |-> id, steps |-> steps]
\* one in which the specification leaves the outcome open (excluded from the binding self-test)
OpenScenario(id, steps) == [id |-> id, steps |-> steps, nobind |-> TRUE]
\* deterministic pseudo-random choice of an element of a sequence
PickS(label, s) == s[1 + RndN(label, Len(s))]
Pick(label, S) == PickS(label, SetToSeq(S))
\* CASES is enumerated in Init; the scenarios are built by the workers in Next
VARIABLES case, emitted
GenInit(Cases) == case \in Cases /\ emitted = FALSE
GenNext(Sc(_)) == ~emitted /\ emitted' = Emit(Sc(case)) /\ case' = case
Concats(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
D(label, n) == Rnd(<<Seed, label>>, n)         \* seed-dependent data
\* a byte string that differs from v in several places at once, in such a way that the
\* differences cancel under some way of accumulating them (i in 1..NNear; BLen(v) >= 8)
NNear == 20
XorAt(v, a, m) == BXor(v, BSet(BZero(BLen(v)), a, m))
AddAt(v, a, x) == BSet(v, a, (BAt(v, a) + x) % 256)
Near(l, v, i) ==
    LET n == BLen(v)
        R(w, k) == RndN(<<Seed, "near", l, i, w>>, k)
        d == <<1, 2, 3, 4, 8, 16, n \div 2, n - 1>>[1 + R("d", 8)]
        dd == IF d < n THEN d ELSE 1
        a == R("a", n - dd)
        m == 1 + R("m", 255)
        Swap(x, y, k) == LET lo == Min(x, y)  hi == Max(x, y) IN
            BCatSeq(<<BHead(v, lo), BSub(v, hi, k), BSub(v, lo + k, hi - lo - k), BSub(v, lo, k), BTail(v, hi + k)>>)
    IN  CASE i = 1 -> XorAt(XorAt(v, a, m), a + dd, m)                     \* equal masks
          [] i = 2 -> AddAt(AddAt(v, a, m), a + dd, 256 - m)               \* sums cancel
          [] i = 3 -> XorAt(XorAt(v, a, 128), a + dd, 128)
          [] i = 4 -> XorAt(XorAt(v, 0, m), n - 1, m)
          [] i = 5 -> AddAt(AddAt(v, 0, m), n - 1, 256 - m)
          [] i = 6 -> BRev(v)
          [] i = 7 -> BCat(BTail(v, 1), BHead(v, 1))
          [] i = 8 -> BCat(BTail(v, n - 1), BHead(v, n - 1))
          [] i = 9 -> BXor(v, BRep(m, n))                                  \* everything
          [] i = 10 -> BXor(v, BRep(255, n))
          [] i = 11 -> BXor(v, BRep(128, n))
          [] i = 12 -> BCat(BTail(v, n \div 2), BHead(v, n \div 2))
          [] i = 13 -> XorAt(XorAt(v, a, m), a + dd, 255 - m)              \* disjoint masks
          [] i = 14 -> XorAt(XorAt(XorAt(XorAt(v, 0, 64), 1, 64), n - 2, 64), n - 1, 64)
          [] i = 15 -> Swap(0, n - 4, 4)
          [] i = 16 -> IF n >= 16 THEN Swap(0, 8, 8) ELSE Swap(0, 4, 4)
          [] i = 17 -> BCatSeq(<<BHead(v, n - 1 - (n \div 3)), D(<<l, "t">>, 1 + (n \div 3))>>)
          [] i = 18 -> BCatSeq(<<D(<<l, "h">>, 1 + (n \div 3)), BTail(v, 1 + (n \div 3))>>)
          [] i = 19 -> XorAt(XorAt(v, a, 1), a + dd, 1)
          [] i = 20 -> D(<<l, "all">>, n)
\* n-byte masks of the same kind, for where the string itself is not known here
NMask == 8
Mask(l, n, i) ==
    LET m == 1 + RndN(<<Seed, "mask", l, i>>, 255)  d == Min(n - 1, <<1, 2, 4, 8, n \div 2, n - 1>>[1 + RndN(<<Seed, "maskd", l, i>>, 6)])
        a == RndN(<<Seed, "maska", l, i>>, n - d)
        two(p, q, u, v) == BSet(BSet(BZero(n), p, u), q, v)
    IN  CASE i = 1 -> two(a, a + d, m, m) [] i = 2 -> two(a, a + d, 128, 128) [] i = 3 -> two(0, n - 1, m, m) [] i = 4 -> BRep(m, n)
          [] i = 5 -> BRep(255, n) [] i = 6 -> BRep(128, n) [] i = 7 -> two(a, a + d, m, 255 - m) [] i = 8 -> LET r == D(<<l, "h">>, n \div 2) IN BCat(r, r)
=============================================================================
