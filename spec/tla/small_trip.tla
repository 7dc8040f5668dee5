\* generated by tools/tlc.py from spec/small_trip.qnt, digest 578a116ccfc63c63edb5b0790e22bd10
------------------------------ MODULE small_trip ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  fi

VARIABLE
  (*
    @type: Int;
  *)
  v

VARIABLE
  (*
    @type: Int;
  *)
  f0

VARIABLE
  (*
    @type: Int;
  *)
  v0

VARIABLE
  (*
    @type: Bool;
  *)
  cut

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_817, frac_817, sgd_817, rnd_817) ==
  [bits |-> bits_817, frac |-> frac_817, sgd |-> sgd_817, rnd |-> rnd_817]

(*
  @type: ((Int) => Int);
*)
p2(k_595) == 2 ^ k_595

(*
  @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan0 ==
  [neg |-> FALSE, ip |-> 0, d |-> 0, k |-> 0, mode |-> 0, n |-> 0, digits |-> 0]

(*
  @type: ((Int) => Bool);
*)
isDigit(c_1994) == 48 <= c_1994 /\ c_1994 <= 57

(*
  @type: ((Int, Int) => Int);
*)
imin(a_557, b_557) == IF a_557 < b_557 THEN a_557 ELSE b_557

(*
  @type: ((Int) => Int);
*)
iabs(a_544) == IF a_544 < 0 THEN -a_544 ELSE a_544

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
reverseL(l_2771) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA3(r_2769, i_2769) ==
    Append(r_2769, l_2771[((Len(l_2771) - 1) - i_2769 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((Len(l_2771) - 0), __QUINT_LAMBDA2)))

(*
  @type: ((Int, Bool) => Int);
*)
digitCh(d_2745, up_2745) ==
  IF d_2745 < 10 THEN 48 + d_2745 ELSE (IF up_2745 THEN 55 ELSE 87) + d_2745

(*
  @type: ((Int, Bool) => Seq(Int));
*)
signL(s_3142, neg_3142) ==
  IF neg_3142
  THEN <<45>>
  ELSE IF s_3142 = 43 THEN <<43>> ELSE IF s_3142 = 32 THEN <<32>> ELSE <<>>

(*
  @type: ((Int, Bool) => Seq(Int));
*)
prefixL(ty_3243, alt_3243) ==
  IF ~alt_3243
  THEN <<>>
  ELSE IF ty_3243 = 120 \/ ty_3243 = 63
  THEN <<48, 120>>
  ELSE IF ty_3243 = 88
  THEN <<48, 88>>
  ELSE IF ty_3243 = 98
  THEN <<48, 98>>
  ELSE IF ty_3243 = 66
  THEN <<48, 66>>
  ELSE IF ty_3243 = 111 THEN <<48>> ELSE <<>>

(*
  @type: ((Int) => Int);
*)
radix(ty_3180) ==
  IF (ty_3180 = 120 \/ ty_3180 = 88) \/ ty_3180 = 63
  THEN 16
  ELSE IF ty_3180 = 100
  THEN 10
  ELSE IF ty_3180 = 111
  THEN 8
  ELSE IF ty_3180 = 98 \/ ty_3180 = 66 THEN 2 ELSE 0

(*
  @type: ((Int) => Bool);
*)
upper(ty_3192) == ty_3192 = 88 \/ ty_3192 = 66

(*
  @type: ((Int, Int) => Seq(Int));
*)
rep(c_3117, n_3117) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA9(l_3115, i_3115) == Append(l_3115, c_3117)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA9, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA8(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((n_3117 - 0), __QUINT_LAMBDA8)))

(*
  @type: ((Int, Int) => Int);
*)
imax(a_570, b_570) == IF a_570 > b_570 THEN a_570 ELSE b_570

(*
  @type: ((Int, Int, Int, Bool, Bool, Int, Int, Int) => { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool });
*)
fspec(align_3098, fill_3098, sign_3098, alt_3098, zero_3098, width_3098, prec_3098,
ty_3098) ==
  [align |-> align_3098,
    fill |-> fill_3098,
    sign |-> sign_3098,
    alt |-> alt_3098,
    zero |-> zero_3098,
    width |-> width_3098,
    prec |-> prec_3098,
    ty |-> ty_3098]

(*
  @type: ((Int) => Int);
*)
bitlen(a_789) ==
  LET (*
    @type: (({ n: Int, v: Int }, Int) => { n: Int, v: Int });
  *)
  __QUINT_LAMBDA11(s_785, i_785) ==
    IF s_785["v"] > 0
    THEN [n |-> s_785["n"] + 1, v |-> s_785["v"] \div 2]
    ELSE s_785
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA11, [n |-> 0, v |-> a_789], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA10(__quint_var5) == (0 + __quint_var5) - 1
  IN
  MkSeq((130 - 0), __QUINT_LAMBDA10)))[
    "n"
  ]

(*
  @type: ((Int, Int) => Int);
*)
fdiv(a_617, b_617) ==
  IF a_617 >= 0 THEN a_617 \div b_617 ELSE -(((b_617 - 1) - a_617) \div b_617)

(*
  @type: ((Int) => Int);
*)
sgn(a_587) == IF a_587 < 0 THEN -1 ELSE IF a_587 > 0 THEN 1 ELSE 0

(*
  @type: (() => Seq({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }));
*)
SF ==
  <<
    (fm(5, 2, TRUE, FALSE)), (fm(7, 4, TRUE, FALSE)), (fm(7, 3, TRUE, FALSE)), (fm(6,
    4, FALSE, FALSE)), (fm(5, 1, TRUE, FALSE))
  >>

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
one(F_882) == p2(F_882["frac"])

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_834) == IF F_834["sgd"] THEN -(p2((F_834["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_857) ==
  IF F_857["sgd"] THEN p2((F_857["bits"] - 1)) - 1 ELSE p2(F_857["bits"]) - 1

(*
  @type: ((Int, Int, Bool) => Seq(Int));
*)
intDigits(n_2828, base_2828, up_2828) ==
  IF n_2828 = 0
  THEN <<48>>
  ELSE reverseL(LET (*
    @type: (({ l: Seq(Int), n: Int }, Int) => { l: Seq(Int), n: Int });
  *)
  __QUINT_LAMBDA5(s_2822, i_2822) ==
    IF s_2822["n"] = 0
    THEN s_2822
    ELSE [l |->
        Append(s_2822["l"], (digitCh((s_2822["n"] % base_2828), up_2828))),
      n |-> s_2822["n"] \div base_2828]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, [l |-> <<>>, n |-> n_2828], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((66 - 0), __QUINT_LAMBDA4)))[
    "l"
  ])

(*
  @type: ((Int, Int, Int, Bool, Int) => Seq(Int));
*)
fracDigits(f_2888, r_2888, base_2888, up_2888, k_2888) ==
  LET (*
    @type: (({ l: Seq(Int), r: Int }, Int) => { l: Seq(Int), r: Int });
  *)
  __QUINT_LAMBDA7(s_2884, i_2884) ==
    IF s_2884["r"] = 0
    THEN s_2884
    ELSE [l |->
        Append(s_2884["l"], (digitCh(((s_2884["r"] * base_2888) \div p2(f_2888)),
        up_2888))),
      r |-> s_2884["r"] * base_2888 % p2(f_2888)]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, [l |-> <<>>, r |-> r_2888], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((k_2888 - 0), __QUINT_LAMBDA6)))[
    "l"
  ]

(*
  @type: ((Int, Int) => Int);
*)
rdiv(a_714, b_714) ==
  LET (*
    @type: (() => Int);
  *)
  q == (2 * iabs(a_714) + iabs(b_714)) \div (2 * iabs(b_714))
  IN
  IF (a_714 < 0) = (b_714 < 0) THEN q ELSE -q

(*
  @type: ((Int, Int) => Int);
*)
tdiv(a_668, b_668) ==
  IF (a_668 < 0) = (b_668 < 0)
  THEN iabs(a_668) \div iabs(b_668)
  ELSE -(iabs(a_668) \div iabs(b_668))

(*
  @type: ((Int, Int) => { e: Int, m: Int });
*)
sigRound(a_1295, p_1295) ==
  LET (*@type: (() => Int); *) n == bitlen((iabs(a_1295))) IN
  IF n <= p_1295
  THEN [m |-> a_1295, e |-> 0]
  ELSE LET (*@type: (() => Int); *) e == n - p_1295 IN
  LET (*@type: (() => Int); *) q == iabs(a_1295) \div p2((e)) IN
  LET (*@type: (() => Int); *) r == iabs(a_1295) % p2((e)) IN
  LET (*
    @type: (() => Bool);
  *)
  up == r > p2((e - 1)) \/ (r = p2((e - 1)) /\ q % 2 = 1)
  IN
  LET (*@type: (() => Int); *) m == IF up THEN q + 1 ELSE q IN
  [m |-> IF a_1295 < 0 THEN -m ELSE m, e |-> e]

(*
  @type: ((Int, Int) => Int);
*)
at(f_93, x_93) == x_93 * p2((4 - (SF)[(f_93 + 1)]["frac"]))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan1(F_2186, s_2186, c_2186) ==
  IF s_2186["mode"] = 3
  THEN s_2186
  ELSE IF s_2186["mode"] = 0 /\ c_2186 = 45
  THEN [
    [ [ s_2186 EXCEPT !["neg"] = TRUE ] EXCEPT !["mode"] = 1 ] EXCEPT
      !["n"] = s_2186["n"] + 1
  ]
  ELSE IF s_2186["mode"] < 2 /\ c_2186 = 46
  THEN [ [ s_2186 EXCEPT !["mode"] = 2 ] EXCEPT !["n"] = s_2186["n"] + 1 ]
  ELSE IF ~(isDigit(c_2186))
  THEN [ s_2186 EXCEPT !["mode"] = 3 ]
  ELSE IF s_2186["mode"] < 2
  THEN [
    [
      [
        [
          s_2186 EXCEPT
            !["ip"] =
              imin((s_2186["ip"] * 10 + c_2186 - 48), (p2((F_2186["bits"] + 6))))
        ] EXCEPT
          !["mode"] = 1
      ] EXCEPT
        !["n"] = s_2186["n"] + 1
    ] EXCEPT
      !["digits"] = s_2186["digits"] + 1
  ]
  ELSE IF s_2186["d"] > (one(F_2186) - 1) \div 10 \/ s_2186["k"] >= 38
  THEN [
    [ s_2186 EXCEPT !["n"] = s_2186["n"] + 1 ] EXCEPT
      !["digits"] = s_2186["digits"] + 1
  ]
  ELSE [
    [
      [
        [ s_2186 EXCEPT !["d"] = s_2186["d"] * 10 + c_2186 - 48 ] EXCEPT
          !["k"] = s_2186["k"] + 1
      ] EXCEPT
        !["n"] = s_2186["n"] + 1
    ] EXCEPT
      !["digits"] = s_2186["digits"] + 1
  ]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_873, v_873) == lo(F_873) <= v_873 /\ v_873 <= hi(F_873)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
magOf(F_2237, s_2237) ==
  s_2237["ip"] * one(F_2237) + (s_2237["d"] * one(F_2237)) \div 10 ^ s_2237["k"]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Bool, Int) => Seq(Int));
*)
printX(F_2950, base_2950, up_2950, v_2950) ==
  LET (*@type: (() => Int); *) m == iabs(v_2950) IN
  LET (*
    @type: (() => Seq(Int));
  *)
  ip == intDigits((m \div one(F_2950)), base_2950, up_2950)
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  fr ==
    fracDigits(F_2950["frac"], (m % one(F_2950)), base_2950, up_2950, F_2950[
      "frac"
    ])
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  body == IF Len((fr)) = 0 THEN ip ELSE Append((ip), 46) \o fr
  IN
  IF v_2950 < 0 THEN <<45>> \o body ELSE body

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool }, Int) => Seq(Int));
*)
digitsL(F_3362, s_3362, v_3362) ==
  LET (*@type: (() => Int); *) m == iabs(v_3362) IN
  IF s_3362["ty"] = 63
  THEN intDigits((m), 16, FALSE)
  ELSE IF radix(s_3362["ty"]) > 0
  THEN intDigits((m \div one(F_3362)), (radix(s_3362["ty"])), (upper(s_3362[
    "ty"
  ])))
  ELSE LET (*
    @type: (() => Int);
  *)
  k == IF s_3362["prec"] < 0 THEN 6 ELSE s_3362["prec"]
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  fr ==
    fracDigits(F_3362["frac"], (m % one(F_3362)), 10, FALSE, (imin((k), F_3362[
      "frac"
    ])))
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  pad ==
    IF s_3362["ty"] = 102 \/ s_3362["ty"] = 70
    THEN rep(48, (k - Len((fr))))
    ELSE <<>>
  IN
  LET (*@type: (() => Seq(Int)); *) frac == fr \o pad IN
  LET (*
    @type: (() => Seq(Int));
  *)
  ip == intDigits((m \div one(F_3362)), 10, FALSE)
  IN
  IF Len((frac)) = 0 THEN ip ELSE Append((ip), 46) \o frac

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
convX(F_1155, G_1155, a_1155) ==
  IF G_1155["frac"] >= F_1155["frac"]
  THEN a_1155 * p2((G_1155["frac"] - F_1155["frac"]))
  ELSE IF G_1155["rnd"]
  THEN rdiv(a_1155, (p2((F_1155["frac"] - G_1155["frac"]))))
  ELSE tdiv(a_1155, (p2((F_1155["frac"] - G_1155["frac"]))))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Int);
*)
fromRealX(F_1213, m_1213, e_1213) ==
  IF e_1213 + F_1213["frac"] >= 0
  THEN m_1213 * p2((e_1213 + F_1213["frac"]))
  ELSE IF F_1213["rnd"]
  THEN rdiv(m_1213, (p2(-(e_1213 + F_1213["frac"]))))
  ELSE tdiv(m_1213, (p2(-(e_1213 + F_1213["frac"]))))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
toIntX(F_1166, a_1166) == fdiv(a_1166, (one(F_1166)))

(*
  @type: (() => Bool);
*)
init ==
  \E f \in LET (*@type: (() => Set(Int)); *) __quint_var6 == DOMAIN SF IN
  IF __quint_var6 = {} THEN {} ELSE (__quint_var6 \union {0}) \ {(Len((SF)))}:
    \E x \in lo((SF)[(f + 1)]) .. hi((SF)[(f + 1)]):
      fi = f
        /\ v = x
        /\ f0 = f
        /\ v0 = x
        /\ cut = TRUE

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Seq(Int), Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan(F_2211, cs_2211, start_2211) ==
  LET (*
    @type: (({ d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  __QUINT_LAMBDA1(s_2209, i_2209) ==
    scan1(F_2211, s_2209, cs_2211[(i_2209 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, (scan0), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (start_2211 + __quint_var0) - 1
  IN
  MkSeq((Len(cs_2211) - start_2211), __QUINT_LAMBDA0)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
numOf(F_2255, s_2255) ==
  IF s_2255["neg"] THEN -(magOf(F_2255, s_2255)) ELSE magOf(F_2255, s_2255)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool }, Int) => Seq(Int));
*)
fmtX(F_3461, s_3461, v_3461) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  pre ==
    signL(s_3461["sign"], (v_3461 < 0)) \o prefixL(s_3461["ty"], s_3461["alt"])
  IN
  LET (*@type: (() => Seq(Int)); *) dig == digitsL(F_3461, s_3461, v_3461) IN
  LET (*
    @type: (() => Int);
  *)
  gap == imax(0, ((s_3461["width"] - Len((pre))) - Len((dig))))
  IN
  IF s_3461["zero"] /\ s_3461["align"] = 0
  THEN (pre \o rep(48, (gap))) \o dig
  ELSE LET (*
    @type: (() => Int);
  *)
  left ==
    IF s_3461["align"] = 60
    THEN 0
    ELSE IF s_3461["align"] = 94 THEN gap \div 2 ELSE gap
  IN
  ((rep(s_3461["fill"], (left)) \o pre) \o dig)
    \o rep(s_3461["fill"], (gap - left))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
convDef(F_1666, G_1666, a_1666) ==
  (G_1666["frac"] <= F_1666["frac"] \/ iabs(a_1666) < p2(G_1666["bits"]))
    /\ fits(G_1666, (convX(F_1666, G_1666, a_1666)))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Bool);
*)
inRange(F_2282, s_2282) ==
  s_2282["ip"] < p2((F_2282["bits"] - F_2282["frac"] + 2))
    /\ fits(F_2282, (numOf(F_2282, s_2282)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int)) => Seq(Int));
*)
lenientX(F_2347, old_2347, cs_2347) ==
  LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_2347, cs_2347, 0)
  IN
  IF inRange(F_2347, (s)) THEN <<1, (numOf(F_2347, (s)))>> ELSE <<0, old_2347>>

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int)) => Seq(Int));
*)
strictX(F_2318, old_2318, cs_2318) ==
  LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_2318, cs_2318, 0)
  IN
  IF (s)["n"] = Len(cs_2318) /\ inRange(F_2318, (s))
  THEN <<1, (numOf(F_2318, (s)))>>
  ELSE <<0, old_2318>>

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Seq(Int));
*)
go(F_235, G_235, leg_235, x_235) ==
  IF leg_235 = 0
  THEN lenientX(G_235, 0, (printX(F_235, 10, FALSE, x_235)))
  ELSE IF leg_235 < 4
  THEN lenientX(G_235, 0, (fmtX(F_235, (fspec(0, 32, 45, FALSE, FALSE, 0, leg_235,
  102)), x_235)))
  ELSE IF leg_235 = 4
  THEN IF convDef(F_235, G_235, x_235)
  THEN <<1, (convX(F_235, G_235, x_235))>>
  ELSE <<0, 0>>
  ELSE IF leg_235 = 5
  THEN LET (*@type: (() => { e: Int, m: Int }); *) s == sigRound(x_235, 3) IN
  LET (*
    @type: (() => Int);
  *)
  r ==
    IF (s)["e"] - F_235["frac"] + G_235["frac"] >= 0
    THEN (s)["m"] * p2(((s)["e"] - F_235["frac"] + G_235["frac"]))
    ELSE fromRealX(G_235, (s)["m"], ((s)["e"] - F_235["frac"]))
  IN
  IF fits(G_235, (r)) THEN <<1, (r)>> ELSE <<0, 0>>
  ELSE LET (*@type: (() => Int); *) r == toIntX(F_235, x_235) * one(G_235) IN
  IF fits(G_235, (r)) THEN <<1, (r)>> ELSE <<0, 0>>

(*
  @type: (() => Bool);
*)
step ==
  \E g \in LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN SF IN
  IF __quint_var7 = {} THEN {} ELSE (__quint_var7 \union {0}) \ {(Len((SF)))}:
    \E leg \in 0 .. 6:
      LET (*
        @type: (() => Seq(Int));
      *)
      r == go((SF)[(fi + 1)], (SF)[(g + 1)], leg, v)
      IN
      LET (*@type: (() => Bool); *) c == cut /\ leg < 5 IN
      (r)[(0 + 1)] = 1
        /\ fi' := g
        /\ v' := (r)[(1 + 1)]
        /\ f0' := (IF c THEN f0 ELSE 0)
        /\ v0' := (IF c THEN v0 ELSE 0)
        /\ cut' := (c)

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
legFine(f_479, g_479, leg_479, x_479) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  r == go((SF)[(f_479 + 1)], (SF)[(g_479 + 1)], leg_479, x_479)
  IN
  LET (*@type: (() => Int); *) before == at(f_479, x_479) IN
  LET (*@type: (() => Int); *) now == at(g_479, (r)[(1 + 1)]) IN
  (r)[(0 + 1)] = 1
    => fits((SF)[(g_479 + 1)], (r)[(1 + 1)])
      /\ (leg_479 = 0 => iabs((before - now)) < 11 * at(g_479, 1) + at(f_479, 1))
      /\ (leg_479 > 0 /\ leg_479 < 4
        => iabs((before - now)) * 10 ^ leg_479
          < (11 * at(g_479, 1) + at(f_479, 1)) * 10 ^ leg_479 + 16)
      /\ (leg_479 = 4 => iabs((before - now)) < at(g_479, 1))
      /\ (leg_479 = 5
        => 8 * iabs((before - now)) <= iabs((before)) + 8 * at(g_479, 1))
      /\ (leg_479 = 6 => (now <= before /\ before - now < 16) /\ now % 16 = 0)
      /\ (leg_479 = 4 /\ (SF)[(g_479 + 1)]["frac"] >= (SF)[(f_479 + 1)]["frac"]
        => now = before)
      /\ (leg_479 = 0
        => strictX((SF)[(g_479 + 1)], 0, (printX((SF)[(f_479 + 1)], 10, FALSE, x_479)))
          = r)

(*
  @type: (() => Bool);
*)
inv ==
  fits((SF)[(fi + 1)], v)
    /\ (cut => iabs((at(fi, v))) <= iabs((at(f0, v0))) /\ sgn(v) * sgn(v0) >= 0)
    /\ ((cut /\ fi = f0) /\ v = v0
      => (\A g_528 \in LET (*
        @type: (() => Set(Int));
      *)
      __quint_var8 == DOMAIN SF
      IN
      IF __quint_var8 = {}
      THEN {}
      ELSE (__quint_var8 \union {0}) \ {(Len((SF)))}:
        \A leg_526 \in 0 .. 6: legFine(fi, g_528, leg_526, v)))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
