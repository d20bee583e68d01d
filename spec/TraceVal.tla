------------------------------ MODULE TraceVal ------------------------------
(* Recorded calls on packed containers and on the small value types. *)
EXTENDS Packed, Values, Scalar, Srgb, TraceBase
VARIABLE l
tvars == << bits, el, by, l >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == PInit(1) /\ l = 1
Same == UNCHANGED pvars
Near(a, b, t) == LET d == a - b IN -t <= d /\ d <= t

------------------------------------------------------------------------------
(* P01 *)
PBegin == Is("pbegin") /\ bits' = E.b /\ el' = << << >>, << >> >> /\ by' = << << >>, << >> >>
PStep ==
  /\ Is("p")
  /\ CASE E.f = "new" -> New(E.k, E.x) [] E.f = "set" -> Set(E.k, E.x, E.y) [] E.f = "resize" -> Resize(E.k, E.x)
       [] E.f = "copy" -> Copy(E.k) [] E.f = "move" -> Move(E.k) [] E.f = "swap" -> Swap [] E.f = "clear" -> Clear(E.k)
       [] E.f = "keep" -> Keep [] E.f = "append" -> Append8(E.k, E.y)
  /\ el' = E.e /\ by' = E.p /\ E.u = E.e /\ E.c = E.e
\* the same container when it is too long to record whole: steps << f, high, low, y >> of 1 set, 2 get, 3 resize, 4 length in
\* bytes, 5 stored byte, at index high * 2^24 + low; an element is what was last stored there and not cut off since
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Carry(h, o) == << h + o \div 16777216, o % 16777216 >>
PGiant ==
  /\ Is("pgiant") /\ Same
  /\ LET W == E.w  per == Per(E.b)
         ix(t) == << W[t][2], W[t][3] >>
         val(x, t) ==
           LET past == { s \in 1..(t - 1) : (W[s][1] = 1 /\ ix(s) = x) \/ (W[s][1] = 3 /\ ~Less(x, ix(s))) } IN
           IF past = {} THEN 0
           ELSE LET s == CHOOSE u \in past : \A v \in past : v <= u IN IF W[s][1] = 1 THEN W[s][4] % 2^E.b ELSE 0
         size(t) == LET past == { s \in 1..(t - 1) : W[s][1] = 3 } IN ix(CHOOSE u \in past : \A v \in past : v <= u)
         \* element k of byte j, and the bytes that n elements take
         inbyte(j, k) == Carry(j[1] * per + j[2] \div (16777216 \div per), (j[2] % (16777216 \div per)) * per + k)
         bytes(n) == Carry(n[1] \div per, (n[1] % per) * (16777216 \div per) + (n[2] + per - 1) \div per) IN
     \A t \in 1..Len(W) :
       CASE W[t][1] = 2 -> Less(ix(t), size(t)) /\ W[t][4] = val(ix(t), t)
         [] W[t][1] = 4 -> ix(t) = bytes(size(t))
         [] W[t][1] = 5 -> W[t][4] = FoldLeft(LAMBDA a, k : a + val(inbyte(ix(t), k - 1), t) * 2^((k - 1) * E.b), 0, [k \in 1..per |-> k])
         [] OTHER -> TRUE
------------------------------------------------------------------------------
(* C01 *)
HexStep == Is("hex") /\ Same /\ E.s = Hex(E.v, E.n) /\ (E.w => E.s = Hex(E.v, 2 * Len(E.v)) /\ E.d = E.s /\ E.back = [i \in 1..8 |-> ByteAt(E.v, i)])
UnHexStep == Is("unhex") /\ Same /\ E.v4 = UnHex(E.s, 4) /\ E.v8 = UnHex(E.s16, 8)
------------------------------------------------------------------------------
(* C02 *)
CBytes ==
  /\ Is("cbytes") /\ Same
  /\ LET c == E.c  z == << c[1], c[2], c[3], 0 >> IN
     /\ E.four = c /\ E.one = << c[1], c[1], c[1], c[1] >> /\ E.word = c /\ E.hex8 = c /\ E.hex6 = z /\ E.low8 = c /\ E.def = << 0, 0, 0, 0 >>
     /\ E.toword = c
     /\ E.toh4 = Hex(Rev(c), 8) /\ E.toh3 = Hex(Rev(SubSeq(c, 1, 3)), 6)
     /\ E.s4 = Decs(c, Space) /\ E.s3 = Decs(SubSeq(c, 1, 3), Space) /\ E.s2 = Decs(SubSeq(c, 1, 2), Space) /\ E.s1 = Decs(SubSeq(c, 1, 1), Space)
     /\ \A f \in {"f2", "f3", "f4", "simd", "get"} : \A i \in 1..Len(E[f]) : Near(E[f][i], 65536 * c[i], 2)
     /\ Len(E.f2) = 2 /\ Len(E.f3) = 3 /\ Len(E.f4) = 4
     /\ E.b2 = << c[1], c[2], 0, 0 >> /\ E.b3 = z /\ E.b4 = c /\ E.bs = c /\ E.bset = c
CNorm ==
  /\ Is("cnorm") /\ Same
  /\ LET c == [i \in 1..4 |-> Chan(E.x[i])] IN
     E.rg = << c[1], c[2], 0, 0 >> /\ E.rgb = << c[1], c[2], c[3], 0 >> /\ E.rgba = c /\ E.simd = c
     /\ \A i \in 1..4 : E.set[i] = [E.old EXCEPT ![i] = c[i]]
CCmp == Is("ccmp") /\ Same /\ LET n4 == << E.n, E.n, E.n, E.n >> IN E.cc = Cmp(E.a, E.b) /\ E.cn = Cmp(E.a, n4) /\ E.nc = Cmp(n4, E.a)
CConst == Is("cconst") /\ Same /\ E.r = << << 255, 255, 255, 255 >>, << 0, 0, 0, 255 >>, << 127, 127, 127, 255 >>, << 0, 0, 0, 0 >>, << 255, 0, 0, 255 >>,
   << 0, 255, 0, 255 >>, << 0, 0, 255, 255 >>, << 0, 255, 255, 255 >>, << 255, 0, 255, 255 >>, << 255, 255, 0, 255 >> >>
\* linear light, and back: alpha is not a light
CLin == /\ Is("clin") /\ Same /\ E.back = E.c /\ Near(E.alpha, 65536 * E.c[4], 2)
        /\ \A i \in 1..3 : Near(E.lin[i], SrgbLin[E.c[i] + 1], SrgbSlack(SrgbLin[E.c[i] + 1]))
\* any light, inside or outside of the range (clamped): the nearest byte
CFrom == Is("cfrom") /\ Same /\ (\A i \in 1..3 : SrgbByte(E.c[i], E.x[i])) /\ E.c[4] = Chan(E.a)
------------------------------------------------------------------------------
(* C03 *)
Ver ==
  /\ Is("ver") /\ Same
  /\ E.parts = E.a /\ E.at = E.a /\ E.cat = E.a /\ E.enc = Rev(E.a) /\ E.of = E.a
  /\ E.s4 = Decs(E.a, Dot) /\ E.s3 = Decs(SubSeq(E.a, 1, 3), Dot) /\ E.s2 = Decs(SubSeq(E.a, 1, 2), Dot) /\ E.s1 = Dec(E.a[1])
  /\ E.cmp = VCmp(E.a, E.b) /\ E.set = [E.a EXCEPT ![E.i] = E.b[E.i]]
  /\ E.short = << << E.a[1], 0, 0, 0 >>, << E.a[1], E.a[2], 0, 0 >>, << E.a[1], E.a[2], E.a[3], 0 >>, << 0, 0, 0, 0 >> >>
------------------------------------------------------------------------------
(* C04 *)
Flags ==
  /\ Is("flags") /\ Same
  /\ LET a == E.a  b == E.b IN
     /\ E.or = FOr(a, b) /\ E.and = FAnd(a, b) /\ E.xor = FXor(a, b) /\ E.com = FNot(a) /\ E.not = FBool(Len(a), FZero(a))
     /\ E.cor = E.or /\ E.cand = E.and /\ E.cxor = E.xor /\ E.refs
     /\ E.any = AsInt(~FZero(FAnd(a, b))) /\ E.one = AsInt(FAnd(a, b) = a)
------------------------------------------------------------------------------
(* C05: scalars in 1/16 *)
Scal3 == Is("scal3") /\ Same /\ E.fmin = Least2(Least2(E.a, E.b), E.c) /\ E.fmax = Most2(Most2(E.a, E.b), E.c)
                             /\ E.imin = E.fmin /\ E.imax = E.fmax
Scal1 == Is("scal1") /\ Same /\ E.sign = (IF E.mz THEN -1 ELSE SignOf(E.x)) /\ IsRepeat(E.x, E.rep)
ScalL == Is("scall") /\ Same /\ E.lerp = LerpAt(E.a, E.b, E.t) /\ E.ld = Toward(E.a, E.b, E.f, E.dt, 3)
ScalG == Is("scalg") /\ Same /\ Near(E.g, (32768 * GainAt(E.x, E.k)) \div IPow(8, E.k), 2) /\ Near(E.g + E.s, 65536, 2)
\* an exponent 1/p below one: g in 1/2^(h+1), s the gain of the argument's complement in 1/2^20
ScalR == Is("scalr") /\ Same /\ E.g = E.m /\ (E.both => Near(1048576 - E.s, IF E.h <= 19 THEN E.m * IPow(2, 19 - E.h) ELSE E.m \div IPow(2, E.h - 19), 4))
Angle == /\ Is("angle") /\ Same
         /\ \A r \in {E.rad, E.r4, E.rs} : \A i \in 1..4 : Near(r[i], (E.d[i] * 314159) \div 180, 4)
         /\ \A r \in {E.back, E.b4, E.bs} : \A i \in 1..4 : Near(r[i], E.d[i] * 1000, 2)
         /\ E.r2 = SubSeq(E.rad, 1, 2) /\ E.r3 = SubSeq(E.rad, 1, 3) /\ E.b2 = SubSeq(E.back, 1, 2) /\ E.b3 = SubSeq(E.back, 1, 3)
------------------------------------------------------------------------------
(* R01 *)
Mips ==
  /\ Is("mips") /\ Same
  /\ LET s == E.s  m2 == UMax(s[1], s[2])  m3 == UMax(m2, s[3]) IN
     /\ E.n = << MipCount(s[1]), MipCount(m2), MipCount(m3), MipCount(m3) >>
     /\ E.at1 = SizeAt(s[1], E.m) /\ E.at2 = [i \in 1..2 |-> SizeAt(s[i], E.m)] /\ E.at3 = [i \in 1..3 |-> SizeAt(s[i], E.m)] /\ E.atv = E.at3

TNext == PBegin \/ PStep \/ PGiant \/ HexStep \/ UnHexStep \/ CBytes \/ CNorm \/ CCmp \/ CConst \/ CLin \/ CFrom \/ Ver \/ Flags \/ Scal3 \/ Scal1 \/ ScalL \/ ScalG \/ ScalR \/ Angle \/ Mips
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
