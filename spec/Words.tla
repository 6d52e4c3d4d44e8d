-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Byte-level data.  A 32-bit word is a 4-tuple of bytes, least            *)
(* significant first (TLC integers are 32 bits wide, so words are never    *)
(* plain integers).  An address is <<hi, lo>>, lo = the 16 low bits.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

Byte == 0..255
Zeros(n) == [k \in 1..n |-> 0]
IsZero(s) == \A k \in DOMAIN s : s[k] = 0

\* contents of never-written memory: a fixed pseudo-random function of the
\* address (the driver's memory model uses the same formula)
InitByte(hi, lo) ==
  (lo * 37 + (lo \div 256) * 101 + (hi % 65536) * 59 + ((hi % 65536) \div 256) * 17
     + (hi \div 65536) * 43 + 11) % 256
WordKey(hi, lo)  == <<hi, lo \div 4>>
InitWord(w)      == <<InitByte(w[1], 4*w[2]), InitByte(w[1], 4*w[2] + 1),
                      InitByte(w[1], 4*w[2] + 2), InitByte(w[1], 4*w[2] + 3)>>
\* m: a partial map from word keys to words, over the initial contents
Word(m, w)       == IF w \in DOMAIN m THEN m[w] ELSE InitWord(w)
ByteAt(m, hi, lo) == Word(m, WordKey(hi, lo))[(lo % 4) + 1]

\* words touched by n bytes starting at <<hi,lo>> (n bytes stay in one line)
Touched(ad, n) == {<<ad[1], k>> : k \in (ad[2] \div 4)..((ad[2] + n - 1) \div 4)}

\* n bytes of m at ad, zero-extended to size
Load(m, ad, n, size) ==
  [k \in 1..size |-> IF k <= n THEN ByteAt(m, ad[1], ad[2] + k - 1) ELSE 0]

\* word w after storing bytes b (of length n) at ad
StoredWord(m, w, ad, n, b) ==
  LET old == Word(m, w)
      base == 4 * w[2]
  IN [k \in 1..4 |-> LET o == base + k - 1 - ad[2] IN
                     IF o >= 0 /\ o < n THEN b[o + 1] ELSE old[k]]
\* m with the words of dom replaced by f
Overlay(m, dom, f) == [w \in DOMAIN m \cup dom |-> IF w \in dom THEN f[w] ELSE m[w]]
Store(m, ad, n, b) ==
  LET dom == Touched(ad, n)
  IN Overlay(m, dom, [w \in dom |-> StoredWord(m, w, ad, n, b)])
Drop(m, dom) == [w \in DOMAIN m \ dom |-> m[w]]

----------------------------------------------------------------------------
(* atomic memory operations on 32-bit words *)
AMO_ADD == 3   AMO_AND == 4   AMO_OR == 5    AMO_SWAP == 6  AMO_MIN == 7
AMO_MINU == 8  AMO_MAX == 9   AMO_MAXU == 10 AMO_XOR == 11

AddW(x, y) ==
  LET a1 == x[1] + y[1]
      a2 == x[2] + y[2] + (a1 \div 256)
      a3 == x[3] + y[3] + (a2 \div 256)
      a4 == x[4] + y[4] + (a3 \div 256)
  IN <<a1 % 256, a2 % 256, a3 % 256, a4 % 256>>
LtU(x, y) == \/ x[4] < y[4]
             \/ x[4] = y[4] /\ x[3] < y[3]
             \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] < y[2]
             \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] = y[2] /\ x[1] < y[1]
Flip(x) == <<x[1], x[2], x[3], (x[4] + 128) % 256>>
LtS(x, y) == LtU(Flip(x), Flip(y))
AmoOp(ty, m, a) ==
  CASE ty = AMO_ADD  -> AddW(m, a)
    [] ty = AMO_AND  -> [k \in 1..4 |-> m[k] & a[k]]
    [] ty = AMO_OR   -> [k \in 1..4 |-> m[k] | a[k]]
    [] ty = AMO_SWAP -> a
    [] ty = AMO_MIN  -> IF LtS(m, a) THEN m ELSE a
    [] ty = AMO_MINU -> IF LtU(m, a) THEN m ELSE a
    [] ty = AMO_MAX  -> IF LtS(a, m) THEN m ELSE a
    [] ty = AMO_MAXU -> IF LtU(a, m) THEN m ELSE a
    [] ty = AMO_XOR  -> [k \in 1..4 |-> m[k] ^^ a[k]]
==============================================================================
