------------------------------ MODULE GenTickets ------------------------------
(* C21: ticketers over time: sealing, opening, rotation, several ticketers,      *)
(* modified tickets, random-source failures.                                     *)
EXTENDS TlsCases
T0 == 1000000
Clock(s) == [op |-> "tls.clock", at |-> T0 + s]
New(h) == [op |-> "tls.ticketer", h |-> h]
TSeal(h, m, to) == [op |-> "tls.tseal", h |-> h, m |-> m, to |-> to]
TOpen(h, from) == [op |-> "tls.topen", h |-> h, t |-> "", from |-> from]
TRaw(h, t) == [op |-> "tls.topen", h |-> h, t |-> t]
RngAt(b, then, at) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0, failat |-> at]
P == 21600

Lens == {1, 2, 15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 3000, 16384, 65535, 70000}
Cases ==
   [k : {"len"}, n : Lens]
   \cup [k : {"flip"}, n : {1, 3, 20}, b : 0..76]
   \cup [k : {"mask"}, i : 1..NMask, r : 1..(IF Thorough THEN 20 ELSE 4)]
   \cup [k : {"cut"}, n : {1, 20, 64}]
   \cup [k : {"short"}, w : 0..3]
   \cup [k : {"other"}, w : 1..6]
   \cup [k : {"rotate"}, d : {1, 3600, 21000, 21598, 21602, 30000, 43000, 43198, 43202, 60000, 64798, 64802, 100000}, u : 0..2]
   \cup [k : {"rngfail"}, at : 1..8]
   \cup [k : {"dry"}, n : {0, 1, 16, 23, 24, 31, 32, 47, 48, 71, 72, 73}]
   \cup [k : {"stuck"}, v : {0, 255}]
   \cup [k : {"same"}, n : {1, 40}]
   \cup [k : {"walk"}, w : 1..(IF Thorough THEN 1500 ELSE 250)]
   \cup [k : {"empty"}, w : {0}]

Hn(i) == <<"a", "b", "c">>[i]
RECURSIVE Walk(_, _, _, _)
Walk(l, left, now, n) ==
    IF left = 0 THEN << >>
    ELSE LET act == RndN(<<l, left, "act">>, 12)
             h == Hn(1 + RndN(<<l, left, "h">>, IF act = 11 THEN 3 ELSE 2))
             i == RndN(<<l, left, "i">>, Max(n, 1))
             tk(j) == "t" \o ToString(j)
             step == PickS(<<l, left, "dt">>, <<5, 100, 7200, 14000, 21605, 21700, 30000, 43500>>)
         IN  IF act < 4 \/ n = 0
             THEN <<TSeal(h, D(<<l, left, "m">>, 1 + RndN(<<l, left, "z">>, 90)), tk(n))>> \o Walk(l, left - 1, now, n + 1)
             ELSE IF act < 9 THEN <<TOpen(h, tk(i))>> \o Walk(l, left - 1, now, n)
             ELSE IF act = 9 THEN <<TOpen(h, tk(i)) @@ [flip |-> RndN(<<l, left, "b">>, 57 * 8)]>> \o Walk(l, left - 1, now, n)
             ELSE IF act = 10 \/ now > 900000 THEN <<TOpen(h, tk(i)) @@ [cut |-> 1 + RndN(<<l, left, "c">>, 60)]>> \o Walk(l, left - 1, now, n)
             ELSE <<Clock(now + step)>> \o Walk(l, left - 1, now + step, n)
Sc(x) ==
  LET id == ToString(<<x>>) IN
  CASE x.k = "len" -> Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x>>, x.n), "t"), TOpen("a", "t"), TSeal("a", "aa", "s"), TOpen("a", "s"), TOpen("a", "t"),
                                     TOpen("a", "t") @@ [add |-> "00"], TOpen("a", "s") @@ [add |-> "00"], TOpen("a", "t") @@ [cuthead |-> 1]>>)
    [] x.k = "flip" -> Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x>>, 60), "big"), TSeal("a", D(<<x.n>>, x.n), "t")>>
                                    \o (IF x.b < 56 + x.n THEN [j \in 1..8 |-> TOpen("a", "t") @@ [flip |-> 8 * x.b + j - 1]] ELSE << >>) \o <<TOpen("a", "t")>>)
    [] x.k = "mask" -> Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x>>, 32), "t"), TOpen("a", "t") @@ [xortail |-> Mask(<<x>>, 16, x.i)], TOpen("a", "t") @@ [xorhead |-> Mask(<<x>>, 16, x.i)],
                                     TOpen("a", "t") @@ [xorhead |-> Mask(<<x>>, 40, x.i)], TOpen("a", "t") @@ [xortail |-> Mask(<<x>>, 32, x.i)], TOpen("a", "t") @@ [xorhead |-> BCat(Mask(<<x>>, 16, x.i), BZero(0)), xortail |-> Mask(<<x>>, 16, x.i)], TOpen("a", "t")>>)
    [] x.k = "cut" -> Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x.n>>, x.n), "t"), TSeal("a", D(<<x.n>>, 200), "big")>>
                                   \o [j \in 1..(56 + x.n) |-> TOpen("a", "t") @@ [cut |-> j]]
                                   \o [j \in 1..(56 + x.n) |-> TOpen("a", "t") @@ [cuthead |-> j]]
                                   \o [j \in 1..20 |-> TOpen("a", "t") @@ [add |-> BZero(j)]] \o <<TOpen("a", "t")>>)
    [] x.k = "short" -> Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x>>, 200), "big")>> \o [j \in 1..80 |-> TRaw("a", BRep(85 * x.w, j - 1))])
    [] x.k = "other" -> Scenario(id, <<Clock(0), New("a"), New("b"), TSeal("a", D(<<x>>, 30 * x.w), "t"), TSeal("b", D(<<x>>, 30 * x.w), "s"),
                                       TOpen("b", "t"), TOpen("a", "s"), TOpen("a", "t"), TOpen("b", "s"), [op |-> "drop", h |-> "a"], New("a"), TSeal("a", D(<<x>>, 200), "u"), TOpen("a", "t")>>)
    \* seal; let time pass, using the ticketer in between or not; open
    [] x.k = "rotate" ->
         Scenario(id, <<Clock(0), New("a"), TSeal("a", D(<<x>>, 40), "t")>>
               \o (IF x.u > 0 THEN <<Clock(x.d \div 2), TSeal("a", D(<<x, 2>>, 20), "s")>> ELSE << >>)
               \o (IF x.u > 1 THEN <<Clock((3 * x.d) \div 4), TOpen("a", "s")>> ELSE << >>)
               \o <<Clock(x.d), TOpen("a", "t")>> \o (IF x.u > 0 THEN <<TOpen("a", "s")>> ELSE << >>)
               \o <<TSeal("a", D(<<x, 3>>, 50), "u"), TOpen("a", "u"), TOpen("a", "t"), Clock(x.d + P + 2), TOpen("a", "u"), TOpen("a", "t"),
                    Clock(x.d + 2 * P + 5), TOpen("a", "u"), TOpen("a", "t")>>)
    [] x.k = "rngfail" -> Scenario(id, LET Opt(s) == [j \in 1..Len(s) |-> s[j] @@ [opt |-> TRUE]] IN Opt(<<Clock(0), RngAt("", "prng", x.at), New("b"), New("a"), TSeal("a", "aa", "t"), TOpen("a", "t"), Clock(P + 10), TSeal("a", "ab", "t"), TOpen("a", "t"),
                                         TSeal("a", "ac", "t"), TOpen("a", "t")>>))
    [] x.k = "dry" -> Scenario(id, <<Clock(0), RngAt(D(<<x>>, x.n), "fail", 0), New("a"), RngAt("", "prng", 0), New("a"), RngAt(D(<<x>>, x.n), "fail", 0), TSeal("a", "aa", "t"),
                                     RngAt("", "prng", 0), TSeal("a", "ab", "u"), Clock(P + 100), RngAt(D(<<x, 2>>, x.n), "fail", 0), TOpen("a", "u"), TSeal("a", "ac", "v"), RngAt("", "prng", 0), TOpen("a", "u"), TOpen("a", "u")>>)
    [] x.k = "stuck" -> Scenario(id, <<Clock(0), [RngAt("", "fill", 0) EXCEPT !.fill = x.v], New("a"), TSeal("a", "aabb", "t"), TOpen("a", "t"), TOpen("a", "t") @@ [flip |-> 0]>>)
    [] x.k = "same" -> Scenario(id, <<Clock(0), New("a")>> \o Concats([j \in 1..20 |-> <<TSeal("a", BRep(9, x.n), "t" \o ToString(j)), TOpen("a", "t" \o ToString(1 + (j \div 2)))>>]))
    [] x.k = "empty" -> OpenScenario(id, <<Clock(0), New("a"), TSeal("a", "", "t"), TOpen("a", "t"), TSeal("a", "aa", "s"), TOpen("a", "t"), TOpen("a", "s")>>)
    [] x.k = "walk" -> Scenario(id, <<Clock(0), New("a"), New("b"), New("c")>> \o Walk(<<x>>, 30, 0, 0))
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
