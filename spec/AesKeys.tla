------------------------------- MODULE AesKeys -------------------------------
(* The AES key schedule (FIPS 197 section 5.2).                               *)
EXTENDS Prim

SBox == BCatSeq(<<"637c777bf26b6fc53001672bfed7ab76ca82c97dfa5947f0add4a2af9ca472c0b7fd9326363ff7cc34a5e5f171d8311504c723c31896059a071280e2eb27b275",
                  "09832c1a1b6e5aa0523bd6b329e32f8453d100ed20fcb15b6acbbe394a4c58cfd0efaafb434d338545f9027f503c9fa851a3408f929d38f5bcb6da2110fff3d2",
                  "cd0c13ec5f974417c4a77e3d645d197360814fdc222a908846eeb814de5e0bdbe0323a0a4906245cc2d3ac629195e479e7c8376d8dd54ea96c56f4ea657aae08",
                  "ba78252e1ca6b4c6e8dd741f4bbd8b8a703eb5664803f60e613557b986c11d9ee1f8981169d98e949b1e87e9ce5528df8ca1890dbfe6426841992d0fb054bb16" >>)
SubWord(w) == BOf([j \in 1..4 |-> BAt(SBox, BAt(w, j - 1))])
RotWord(w) == BCat(BTail(w, 1), BHead(w, 1))
RCon == <<"01000000", "02000000", "04000000", "08000000", "10000000",
          "20000000", "40000000", "80000000", "1b000000", "36000000">>
\* word i (0-based) given the words before it
NextWord(ws, nk, i) ==
    LET t == ws[i]
        x == IF i % nk = 0 THEN BXor(SubWord(RotWord(t)), RCon[i \div nk])
             ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(t) ELSE t
    IN  BXor(ws[i + 1 - nk], x)
RECURSIVE KeyWords(_, _, _)
KeyWords(ws, nk, n) == IF Len(ws) = n THEN ws ELSE KeyWords(Append(ws, NextWord(ws, nk, Len(ws))), nk, n)
RoundKeys(k) ==
    LET nk == BLen(k) \div 4
    IN  BCatSeq(KeyWords([j \in 1..nk |-> BSub(k, 4 * (j - 1), 4)], nk, 4 * (nk + 7)))
=============================================================================
