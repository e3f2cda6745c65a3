------------------------------- MODULE Hashes -------------------------------
(* SHA-256 (FIPS 180-4), Keccak-256 (the original padding) and RIPEMD-160,    *)
(* written out over 16-bit limbs so that TLC's 32-bit integers suffice.       *)
(* Messages and digests are sequences of bytes.                               *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL P2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64
                 [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024 [] n = 11 -> 2048 [] n = 12 -> 4096
                 [] n = 13 -> 8192 [] n = 14 -> 16384 [] n = 15 -> 32768 [] OTHER -> 65536

----------------------------------------------------------------------------
(* 32-bit words <<high, low>> *)
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
AddW(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
RotRW(a, n) == IF n >= 16 THEN LET m == n - 16 IN
                      <<(a[2] \div P2(m)) + ((a[1] * P2(16 - m)) % 65536), (a[1] \div P2(m)) + ((a[2] * P2(16 - m)) % 65536)>>
               ELSE <<(a[1] \div P2(n)) + (((a[2] % P2(n)) * P2(16 - n)) % 65536), (a[2] \div P2(n)) + (((a[1] % P2(n)) * P2(16 - n)) % 65536)>>
ShrW(a, n) == IF n >= 16 THEN <<0, a[1] \div P2(n - 16)>> ELSE <<a[1] \div P2(n), (a[2] \div P2(n)) + (((a[1] % P2(n)) * P2(16 - n)) % 65536)>>
RotLW(a, n) == RotRW(a, 32 - n)

LOCAL Zeros(n) == [k \in 1 .. n |-> 0]
LOCAL PadLen(n) == (119 - (n % 64)) % 64            \* zero bytes so that n + 1 + pad = 56 mod 64
LOCAL Bits32(n) == LET b == n * 8 IN <<(b \div 16777216) % 256, (b \div 65536) % 256, (b \div 256) % 256, b % 256>>

LOCAL K256 == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
LOCAL H256 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>
LOCAL Sched(m, o) ==
  LET w0 == [k \in 1 .. 16 |-> <<m[o + 4 * k - 3] * 256 + m[o + 4 * k - 2], m[o + 4 * k - 1] * 256 + m[o + 4 * k]>>]
      step(w, t) == LET x == w[t - 15]  y == w[t - 2]
                        s0 == XorW(XorW(RotRW(x, 7), RotRW(x, 18)), ShrW(x, 3))
                        s1 == XorW(XorW(RotRW(y, 17), RotRW(y, 19)), ShrW(y, 10))
                    IN Append(w, AddW(AddW(w[t - 16], s0), AddW(w[t - 7], s1)))
  IN FoldLeft(step, w0, [k \in 1 .. 48 |-> k + 16])
LOCAL Compress256(h, m, o) ==
  LET w == Sched(m, o)
      step(v, t) ==
        LET s1 == XorW(XorW(RotRW(v[5], 6), RotRW(v[5], 11)), RotRW(v[5], 25))
            ch == XorW(AndW(v[5], v[6]), AndW(NotW(v[5]), v[7]))
            t1 == AddW(AddW(AddW(v[8], s1), AddW(ch, K256[t])), w[t])
            s0 == XorW(XorW(RotRW(v[1], 2), RotRW(v[1], 13)), RotRW(v[1], 22))
            mj == XorW(XorW(AndW(v[1], v[2]), AndW(v[1], v[3])), AndW(v[2], v[3]))
        IN <<AddW(t1, AddW(s0, mj)), v[1], v[2], v[3], AddW(v[4], t1), v[5], v[6], v[7]>>
      r == FoldLeft(step, h, [k \in 1 .. 64 |-> k])
  IN [k \in 1 .. 8 |-> AddW(h[k], r[k])]
LOCAL BytesW(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
LOCAL BytesWLE(a) == <<a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
Sha256(msg) ==
  LET m == msg \o <<128>> \o Zeros(PadLen(Len(msg))) \o <<0, 0, 0, 0>> \o Bits32(Len(msg))
      h == FoldLeft(LAMBDA acc, k : Compress256(acc, m, (k - 1) * 64), H256, [k \in 1 .. (Len(m) \div 64) |-> k])
  IN FoldLeft(LAMBDA acc, x : acc \o BytesW(x), <<>>, h)

----------------------------------------------------------------------------
LOCAL R1 == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13>>
LOCAL R2 == <<5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11>>
LOCAL S1 == <<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6>>
LOCAL S2 == <<8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11>>
LOCAL KL == <<<<0, 0>>, <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<43347, 64846>>>>
LOCAL KR == <<<<20642, 35814>>, <<23629, 53540>>, <<28016, 16115>>, <<31341, 30441>>, <<0, 0>>>>
LOCAL H160 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
LOCAL FR(j, x, y, z) == CASE j = 0 -> XorW(XorW(x, y), z)
                     [] j = 1 -> OrW(AndW(x, y), AndW(NotW(x), z))
                     [] j = 2 -> XorW(OrW(x, NotW(y)), z)
                     [] j = 3 -> OrW(AndW(x, z), AndW(y, NotW(z)))
                     [] j = 4 -> XorW(x, OrW(y, NotW(z)))
LOCAL Compress160(h, m, o) ==
  LET x == [k \in 1 .. 16 |-> <<m[o + 4 * k] * 256 + m[o + 4 * k - 1], m[o + 4 * k - 2] * 256 + m[o + 4 * k - 3]>>]
      line(v, t, f, r, s, kk) ==
        LET a == AddW(RotLW(AddW(AddW(v[1], FR(f, v[2], v[3], v[4])), AddW(x[r + 1], kk)), s), v[5])
        IN <<v[5], a, v[2], RotLW(v[3], 10), v[4]>>
      L == FoldLeft(LAMBDA v, t : line(v, t, (t - 1) \div 16, R1[t], S1[t], KL[(t - 1) \div 16 + 1]), h, [k \in 1 .. 80 |-> k])
      R == FoldLeft(LAMBDA v, t : line(v, t, 4 - (t - 1) \div 16, R2[t], S2[t], KR[(t - 1) \div 16 + 1]), h, [k \in 1 .. 80 |-> k])
  IN <<AddW(AddW(h[2], L[3]), R[4]), AddW(AddW(h[3], L[4]), R[5]), AddW(AddW(h[4], L[5]), R[1]),
       AddW(AddW(h[5], L[1]), R[2]), AddW(AddW(h[1], L[2]), R[3])>>
Ripemd160(msg) ==
  LET m == msg \o <<128>> \o Zeros(PadLen(Len(msg))) \o Reverse(Bits32(Len(msg))) \o <<0, 0, 0, 0>>
      h == FoldLeft(LAMBDA acc, k : Compress160(acc, m, (k - 1) * 64), H160, [k \in 1 .. (Len(m) \div 64) |-> k])
  IN FoldLeft(LAMBDA acc, w : acc \o BytesWLE(w), <<>>, h)

----------------------------------------------------------------------------
(* 64-bit lanes: four 16-bit limbs, least significant first *)
XorL(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
AndNotL(a, b) == <<(65535 - a[1]) & b[1], (65535 - a[2]) & b[2], (65535 - a[3]) & b[3], (65535 - a[4]) & b[4]>>
RotL(a, n) == LET q == n \div 16  s == n % 16
              IN [k \in 1 .. 4 |-> ((a[((k - 1 - q) % 4) + 1] * P2(s)) % 65536) + (a[((k - 2 - q) % 4) + 1] \div P2(16 - s))]
LOCAL RCk == <<<<1, 0, 0, 0>>, <<32898, 0, 0, 0>>, <<32906, 0, 0, 32768>>, <<32768, 32768, 0, 32768>>, <<32907, 0, 0, 0>>, <<1, 32768, 0, 0>>, <<32897, 32768, 0, 32768>>, <<32777, 0, 0, 32768>>, <<138, 0, 0, 0>>, <<136, 0, 0, 0>>, <<32777, 32768, 0, 0>>, <<10, 32768, 0, 0>>, <<32907, 32768, 0, 0>>, <<139, 0, 0, 32768>>, <<32905, 0, 0, 32768>>, <<32771, 0, 0, 32768>>, <<32770, 0, 0, 32768>>, <<128, 0, 0, 32768>>, <<32778, 0, 0, 0>>, <<10, 32768, 0, 32768>>, <<32897, 32768, 0, 32768>>, <<32896, 0, 0, 32768>>, <<1, 32768, 0, 0>>, <<32776, 32768, 0, 32768>>>>
LOCAL Rot == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
LOCAL L(s, x, y) == s[(x % 5) + 5 * (y % 5) + 1]
LOCAL Round(s, r) ==
  LET c == [x \in 1 .. 5 |-> XorL(XorL(XorL(s[x], s[x + 5]), XorL(s[x + 10], s[x + 15])), s[x + 20])]
      d == [x \in 1 .. 5 |-> XorL(c[((x + 3) % 5) + 1], RotL(c[(x % 5) + 1], 1))]
      a == [k \in 1 .. 25 |-> RotL(XorL(s[k], d[((k - 1) % 5) + 1]), Rot[k])]
      b == [k \in 1 .. 25 |-> LET x == (k - 1) % 5  y == (k - 1) \div 5 IN a[((x + 3 * y) % 5) + 5 * x + 1]]
      e == [k \in 1 .. 25 |-> LET x == (k - 1) % 5  y == (k - 1) \div 5 IN XorL(b[k], AndNotL(L(b, x + 1, y), L(b, x + 2, y)))]
  IN [e EXCEPT ![1] = XorL(@, RCk[r])]
LOCAL KeccakF(s) == FoldLeft(Round, s, [k \in 1 .. 24 |-> k])
LOCAL Absorb(s, m, o) ==
  KeccakF([k \in 1 .. 25 |-> IF k > 17 THEN s[k]
            ELSE XorL(s[k], [j \in 1 .. 4 |-> m[o + 8 * (k - 1) + 2 * j - 1] + 256 * m[o + 8 * (k - 1) + 2 * j]])])
Keccak256(msg) ==
  LET p == 136 - (Len(msg) % 136)
      m == msg \o (IF p = 1 THEN <<129>> ELSE <<1>> \o Zeros(p - 2) \o <<128>>)
      s == FoldLeft(LAMBDA acc, k : Absorb(acc, m, (k - 1) * 136), [k \in 1 .. 25 |-> <<0, 0, 0, 0>>], [k \in 1 .. (Len(m) \div 136) |-> k])
  IN FoldLeft(LAMBDA acc, k : acc \o FoldLeft(LAMBDA a2, x : a2 \o <<x % 256, x \div 256>>, <<>>, s[k]), <<>>, <<1, 2, 3, 4>>)
=============================================================================
