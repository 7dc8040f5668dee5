\* generated by tools/tlc.py from spec/small_print.qnt, digest 8bc960c1bba9496b5744a14d6dd45193
------------------------------ MODULE small_print ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  fi

VARIABLE
  (*
    @type: Int;
  *)
  v

VARIABLE
  (*
    @type: Int;
  *)
  hops

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_810, frac_810, sgd_810, rnd_810) ==
  [bits |-> bits_810, frac |-> frac_810, sgd |-> sgd_810, rnd |-> rnd_810]

(*
  @type: ((Int) => Int);
*)
p2(k_588) == 2 ^ k_588

(*
  @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan0 ==
  [neg |-> FALSE, ip |-> 0, d |-> 0, k |-> 0, mode |-> 0, n |-> 0, digits |-> 0]

(*
  @type: ((Int) => Bool);
*)
isDigit(c_1329) == 48 <= c_1329 /\ c_1329 <= 57

(*
  @type: ((Int, Int) => Int);
*)
imin(a_550, b_550) == IF a_550 < b_550 THEN a_550 ELSE b_550

(*
  @type: ((Int) => Int);
*)
iabs(a_537) == IF a_537 < 0 THEN -a_537 ELSE a_537

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
reverseL(l_2106) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA4(r_2104, i_2104) ==
    Append(r_2104, l_2106[((Len(l_2106) - 1) - i_2104 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA4, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA3(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((Len(l_2106) - 0), __QUINT_LAMBDA3)))

(*
  @type: ((Int, Bool) => Int);
*)
digitCh(d_2080, up_2080) ==
  IF d_2080 < 10 THEN 48 + d_2080 ELSE (IF up_2080 THEN 55 ELSE 87) + d_2080

(*
  @type: ((Int, Int) => Seq(Int));
*)
rep(c_2452, n_2452) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA10(l_2450, i_2450) == Append(l_2450, c_2452)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA10, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA9(__quint_var6) == (0 + __quint_var6) - 1
  IN
  MkSeq((n_2452 - 0), __QUINT_LAMBDA9)))

(*
  @type: ((Int, Int) => Int);
*)
imax(a_563, b_563) == IF a_563 > b_563 THEN a_563 ELSE b_563

(*
  @type: ((Int, Bool) => Seq(Int));
*)
signL(s_2477, neg_2477) ==
  IF neg_2477
  THEN <<45>>
  ELSE IF s_2477 = 43 THEN <<43>> ELSE IF s_2477 = 32 THEN <<32>> ELSE <<>>

(*
  @type: ((Int, Bool) => Seq(Int));
*)
prefixL(ty_2578, alt_2578) ==
  IF ~alt_2578
  THEN <<>>
  ELSE IF ty_2578 = 120 \/ ty_2578 = 63
  THEN <<48, 120>>
  ELSE IF ty_2578 = 88
  THEN <<48, 88>>
  ELSE IF ty_2578 = 98
  THEN <<48, 98>>
  ELSE IF ty_2578 = 66
  THEN <<48, 66>>
  ELSE IF ty_2578 = 111 THEN <<48>> ELSE <<>>

(*
  @type: ((Int) => Int);
*)
radix(ty_2515) ==
  IF (ty_2515 = 120 \/ ty_2515 = 88) \/ ty_2515 = 63
  THEN 16
  ELSE IF ty_2515 = 100
  THEN 10
  ELSE IF ty_2515 = 111
  THEN 8
  ELSE IF ty_2515 = 98 \/ ty_2515 = 66 THEN 2 ELSE 0

(*
  @type: ((Int) => Bool);
*)
upper(ty_2527) == ty_2527 = 88 \/ ty_2527 = 66

(*
  @type: ((Int, Int, Int, Bool, Bool, Int, Int, Int) => { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool });
*)
fspec(align_2433, fill_2433, sign_2433, alt_2433, zero_2433, width_2433, prec_2433,
ty_2433) ==
  [align |-> align_2433,
    fill |-> fill_2433,
    sign |-> sign_2433,
    alt |-> alt_2433,
    zero |-> zero_2433,
    width |-> width_2433,
    prec |-> prec_2433,
    ty |-> ty_2433]

(*
  @type: (() => Seq({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }));
*)
SF ==
  <<
    (fm(5, 2, TRUE, FALSE)), (fm(5, 4, TRUE, FALSE)), (fm(4, 3, FALSE, FALSE)), (fm(5,
    1, TRUE, TRUE))
  >>

(*
  @type: ((Int, Int, Seq(Int)) => Int);
*)
valueOf(base_220, f_220, l_220) ==
  LET (*
    @type: (() => { dot: Bool, k: Int, n: Int, neg: Bool });
  *)
  s ==
    LET (*
      @type: (({ dot: Bool, k: Int, n: Int, neg: Bool }, Int) => { dot: Bool, k: Int, n: Int, neg: Bool });
    *)
    __QUINT_LAMBDA0(q_177, c_177) ==
      IF c_177 = 45
      THEN [ q_177 EXCEPT !["neg"] = TRUE ]
      ELSE IF c_177 = 46
      THEN [ q_177 EXCEPT !["dot"] = TRUE ]
      ELSE [
        [
          q_177 EXCEPT
            !["n"] =
              q_177["n"] * base_220
                + (IF c_177 < 58
                THEN c_177 - 48
                ELSE IF c_177 < 91 THEN c_177 - 55 ELSE c_177 - 87)
        ] EXCEPT
          !["k"] = q_177["k"] + (IF q_177["dot"] THEN 1 ELSE 0)
      ]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA0, [n |-> 0,
      k |-> 0,
      dot |-> FALSE,
      neg |-> FALSE], l_220)
  IN
  LET (*@type: (() => Int); *) m == (s)["n"] * p2(f_220) IN
  IF m % base_220 ^ (s)["k"] /= 0
  THEN -1000
  ELSE IF (s)["neg"]
  THEN -(m \div base_220 ^ (s)["k"])
  ELSE m \div base_220 ^ (s)["k"]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
one(F_875) == p2(F_875["frac"])

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_827) == IF F_827["sgd"] THEN -(p2((F_827["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_850) ==
  IF F_850["sgd"] THEN p2((F_850["bits"] - 1)) - 1 ELSE p2(F_850["bits"]) - 1

(*
  @type: ((Int, Int, Bool) => Seq(Int));
*)
intDigits(n_2163, base_2163, up_2163) ==
  IF n_2163 = 0
  THEN <<48>>
  ELSE reverseL(LET (*
    @type: (({ l: Seq(Int), n: Int }, Int) => { l: Seq(Int), n: Int });
  *)
  __QUINT_LAMBDA6(s_2157, i_2157) ==
    IF s_2157["n"] = 0
    THEN s_2157
    ELSE [l |->
        Append(s_2157["l"], (digitCh((s_2157["n"] % base_2163), up_2163))),
      n |-> s_2157["n"] \div base_2163]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA6, [l |-> <<>>, n |-> n_2163], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA5(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((66 - 0), __QUINT_LAMBDA5)))[
    "l"
  ])

(*
  @type: ((Int, Int, Int, Bool, Int) => Seq(Int));
*)
fracDigits(f_2223, r_2223, base_2223, up_2223, k_2223) ==
  LET (*
    @type: (({ l: Seq(Int), r: Int }, Int) => { l: Seq(Int), r: Int });
  *)
  __QUINT_LAMBDA8(s_2219, i_2219) ==
    IF s_2219["r"] = 0
    THEN s_2219
    ELSE [l |->
        Append(s_2219["l"], (digitCh(((s_2219["r"] * base_2223) \div p2(f_2223)),
        up_2223))),
      r |-> s_2219["r"] * base_2223 % p2(f_2223)]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, [l |-> <<>>, r |-> r_2223], (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA7(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((k_2223 - 0), __QUINT_LAMBDA7)))[
    "l"
  ]

(*
  @type: ((Seq(Int), Int, Int, Bool) => Seq(Int));
*)
fieldX(t_2356, width_2356, fill_2356, left_2356) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  p == rep(fill_2356, (imax(0, (width_2356 - Len(t_2356)))))
  IN
  IF left_2356 THEN t_2356 \o p ELSE p \o t_2356

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan1(F_1521, s_1521, c_1521) ==
  IF s_1521["mode"] = 3
  THEN s_1521
  ELSE IF s_1521["mode"] = 0 /\ c_1521 = 45
  THEN [
    [ [ s_1521 EXCEPT !["neg"] = TRUE ] EXCEPT !["mode"] = 1 ] EXCEPT
      !["n"] = s_1521["n"] + 1
  ]
  ELSE IF s_1521["mode"] < 2 /\ c_1521 = 46
  THEN [ [ s_1521 EXCEPT !["mode"] = 2 ] EXCEPT !["n"] = s_1521["n"] + 1 ]
  ELSE IF ~(isDigit(c_1521))
  THEN [ s_1521 EXCEPT !["mode"] = 3 ]
  ELSE IF s_1521["mode"] < 2
  THEN [
    [
      [
        [
          s_1521 EXCEPT
            !["ip"] =
              imin((s_1521["ip"] * 10 + c_1521 - 48), (p2((F_1521["bits"] + 6))))
        ] EXCEPT
          !["mode"] = 1
      ] EXCEPT
        !["n"] = s_1521["n"] + 1
    ] EXCEPT
      !["digits"] = s_1521["digits"] + 1
  ]
  ELSE IF s_1521["d"] > (one(F_1521) - 1) \div 10 \/ s_1521["k"] >= 38
  THEN [
    [ s_1521 EXCEPT !["n"] = s_1521["n"] + 1 ] EXCEPT
      !["digits"] = s_1521["digits"] + 1
  ]
  ELSE [
    [
      [
        [ s_1521 EXCEPT !["d"] = s_1521["d"] * 10 + c_1521 - 48 ] EXCEPT
          !["k"] = s_1521["k"] + 1
      ] EXCEPT
        !["n"] = s_1521["n"] + 1
    ] EXCEPT
      !["digits"] = s_1521["digits"] + 1
  ]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_866, v_866) == lo(F_866) <= v_866 /\ v_866 <= hi(F_866)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
magOf(F_1572, s_1572) ==
  s_1572["ip"] * one(F_1572) + (s_1572["d"] * one(F_1572)) \div 10 ^ s_1572["k"]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Bool, Int) => Seq(Int));
*)
printX(F_2285, base_2285, up_2285, v_2285) ==
  LET (*@type: (() => Int); *) m == iabs(v_2285) IN
  LET (*
    @type: (() => Seq(Int));
  *)
  ip == intDigits((m \div one(F_2285)), base_2285, up_2285)
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  fr ==
    fracDigits(F_2285["frac"], (m % one(F_2285)), base_2285, up_2285, F_2285[
      "frac"
    ])
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  body == IF Len((fr)) = 0 THEN ip ELSE Append((ip), 46) \o fr
  IN
  IF v_2285 < 0 THEN <<45>> \o body ELSE body

(*
  @type: (() => Bool);
*)
init ==
  \E f \in LET (*@type: (() => Set(Int)); *) __quint_var5 == DOMAIN SF IN
  IF __quint_var5 = {} THEN {} ELSE (__quint_var5 \union {0}) \ {(Len((SF)))}:
    \E x \in lo((SF)[(f + 1)]) .. hi((SF)[(f + 1)]): fi = f /\ v = x /\ hops = 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool }, Int) => Seq(Int));
*)
digitsL(F_2697, s_2697, v_2697) ==
  LET (*@type: (() => Int); *) m == iabs(v_2697) IN
  IF s_2697["ty"] = 63
  THEN intDigits((m), 16, FALSE)
  ELSE IF radix(s_2697["ty"]) > 0
  THEN intDigits((m \div one(F_2697)), (radix(s_2697["ty"])), (upper(s_2697[
    "ty"
  ])))
  ELSE LET (*
    @type: (() => Int);
  *)
  k == IF s_2697["prec"] < 0 THEN 6 ELSE s_2697["prec"]
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  fr ==
    fracDigits(F_2697["frac"], (m % one(F_2697)), 10, FALSE, (imin((k), F_2697[
      "frac"
    ])))
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  pad ==
    IF s_2697["ty"] = 102 \/ s_2697["ty"] = 70
    THEN rep(48, (k - Len((fr))))
    ELSE <<>>
  IN
  LET (*@type: (() => Seq(Int)); *) frac == fr \o pad IN
  LET (*
    @type: (() => Seq(Int));
  *)
  ip == intDigits((m \div one(F_2697)), 10, FALSE)
  IN
  IF Len((frac)) = 0 THEN ip ELSE Append((ip), 46) \o frac

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Seq(Int), Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan(F_1546, cs_1546, start_1546) ==
  LET (*
    @type: (({ d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  __QUINT_LAMBDA2(s_1544, i_1544) ==
    scan1(F_1546, s_1544, cs_1546[(i_1544 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, (scan0), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA1(__quint_var0) == (start_1546 + __quint_var0) - 1
  IN
  MkSeq((Len(cs_1546) - start_1546), __QUINT_LAMBDA1)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
numOf(F_1590, s_1590) ==
  IF s_1590["neg"] THEN -(magOf(F_1590, s_1590)) ELSE magOf(F_1590, s_1590)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { align: Int, alt: Bool, fill: Int, prec: Int, sign: Int, ty: Int, width: Int, zero: Bool }, Int) => Seq(Int));
*)
fmtX(F_2796, s_2796, v_2796) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  pre ==
    signL(s_2796["sign"], (v_2796 < 0)) \o prefixL(s_2796["ty"], s_2796["alt"])
  IN
  LET (*@type: (() => Seq(Int)); *) dig == digitsL(F_2796, s_2796, v_2796) IN
  LET (*
    @type: (() => Int);
  *)
  gap == imax(0, ((s_2796["width"] - Len((pre))) - Len((dig))))
  IN
  IF s_2796["zero"] /\ s_2796["align"] = 0
  THEN (pre \o rep(48, (gap))) \o dig
  ELSE LET (*
    @type: (() => Int);
  *)
  left ==
    IF s_2796["align"] = 60
    THEN 0
    ELSE IF s_2796["align"] = 94 THEN gap \div 2 ELSE gap
  IN
  ((rep(s_2796["fill"], (left)) \o pre) \o dig)
    \o rep(s_2796["fill"], (gap - left))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Bool);
*)
inRange(F_1617, s_1617) ==
  s_1617["ip"] < p2((F_1617["bits"] - F_1617["frac"] + 2))
    /\ fits(F_1617, (numOf(F_1617, s_1617)))

(*
  @type: (() => Bool);
*)
inv ==
  LET (*
    @type: (() => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
  *)
  F == (SF)[(fi + 1)]
  IN
  LET (*@type: (() => Seq(Int)); *) t == printX((F), 10, FALSE, v) IN
  fits((F), v)
    /\ (\A b_266 \in { 2, 8, 10, 16 }:
      valueOf(b_266, (F)["frac"], (printX((F), b_266, TRUE, v))) = v
        /\ valueOf(b_266, (F)["frac"], (printX((F), b_266, FALSE, v))) = v)
    /\ (Len((t)) > 0 /\ (t)[(Len((t)) - 1 + 1)] /= 46)
    /\ (scan((F), (t), 0))["n"] = Len((t))
    /\ (\A w_334 \in { 0, 3, 9 }:
      \A left_332 \in { TRUE, FALSE }:
        LET (*
          @type: (() => Seq(Int));
        *)
        p == fieldX((t), w_334, 42, left_332)
        IN
        Len((p)) = imax(w_334, (Len((t))))
          /\ (IF left_332
          THEN SubSeq((p), (0 + 1), (Len((t))))
          ELSE SubSeq((p), (Len((p)) - Len((t)) + 1), (Len((p)))))
            = t)
    /\ (\A al_520 \in { 0, 60, 62, 94 }:
      \A sg_518 \in { 45, 43 }:
        \A zero_516 \in { TRUE, FALSE }:
          \A w_514 \in { 0, 9 }:
            \A pr_512 \in { (-1), 2 }:
              \A ty_510 \in { 103, 102, 120 }:
                LET (*
                  @type: (() => Seq(Int));
                *)
                bare ==
                  fmtX((F), (fspec(0, 32, sg_518, TRUE, FALSE, 0, pr_512, ty_510)),
                  v)
                IN
                LET (*
                  @type: (() => Seq(Int));
                *)
                full ==
                  fmtX((F), (fspec(al_520, 42, sg_518, TRUE, zero_516, w_514, pr_512,
                  ty_510)), v)
                IN
                Len((full)) = imax(w_514, (Len((bare))))
                  /\ (al_520 = 60
                    => SubSeq((full), (0 + 1), (Len((bare)))) = bare)
                  /\ (al_520 = 62
                    => SubSeq((full), (Len((full)) - Len((bare)) + 1), (Len((full))))
                      = bare)
                  /\ ((zero_516 /\ al_520 = 0) /\ v < 0 => (full)[(0 + 1)] = 45)
                  /\ (ty_510 = 103 /\ pr_512 < 0
                    => iabs((valueOf(10, (F)["frac"], (fmtX((F), (fspec(0, 32, 45,
                    FALSE, FALSE, 0, 40, ty_510)), v)))
                      - v))
                      = 0)
                  /\ (ty_510 = 102 /\ pr_512 >= 0
                    => (scan((F), (fmtX((F), (fspec(0, 32, 45, FALSE, FALSE, 0, pr_512,
                    ty_510)), v)), 0))[
                      "n"
                    ]
                      = Len((fmtX((F), (fspec(0, 32, 45, FALSE, FALSE, 0, pr_512,
                      ty_510)), v)))))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int)) => Seq(Int));
*)
strictX(F_1653, old_1653, cs_1653) ==
  LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_1653, cs_1653, 0)
  IN
  IF (s)["n"] = Len(cs_1653) /\ inRange(F_1653, (s))
  THEN <<1, (numOf(F_1653, (s)))>>
  ELSE <<0, old_1653>>

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
step ==
  \E g \in LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN SF IN
  IF __quint_var4 = {} THEN {} ELSE (__quint_var4 \union {0}) \ {(Len((SF)))}:
    LET (*
      @type: (() => Seq(Int));
    *)
    r == strictX((SF)[(g + 1)], 99, (printX((SF)[(fi + 1)], 10, FALSE, v)))
    IN
    (r)[(0 + 1)] = 1
      /\ fi' := g
      /\ v' := (r)[(1 + 1)]
      /\ hops' := (imin(1, (hops + 1)))

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
