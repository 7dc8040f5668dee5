\* generated by tools/tlc.py from spec/small_conv.qnt, digest 3dfbd1a151e9a9cdc20f379f65fa1808
------------------------------ MODULE small_conv ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  fi

VARIABLE
  (*
    @type: Int;
  *)
  v

VARIABLE
  (*
    @type: Int;
  *)
  f0

VARIABLE
  (*
    @type: Int;
  *)
  v0

VARIABLE
  (*
    @type: Int;
  *)
  least

VARIABLE
  (*
    @type: Bool;
  *)
  rounded

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_879, frac_879, sgd_879, rnd_879) ==
  [bits |-> bits_879, frac |-> frac_879, sgd |-> sgd_879, rnd |-> rnd_879]

(*
  @type: ((Int) => Int);
*)
p2(k_657) == 2 ^ k_657

(*
  @type: ((Int) => Int);
*)
iabs(a_606) == IF a_606 < 0 THEN -a_606 ELSE a_606

(*
  @type: ((Int, Int) => Int);
*)
imin(a_619, b_619) == IF a_619 < b_619 THEN a_619 ELSE b_619

(*
  @type: ((Int) => Int);
*)
sgn(a_649) == IF a_649 < 0 THEN -1 ELSE IF a_649 > 0 THEN 1 ELSE 0

(*
  @type: ((Int, Int) => Int);
*)
fdiv(a_679, b_679) ==
  IF a_679 >= 0 THEN a_679 \div b_679 ELSE -(((b_679 - 1) - a_679) \div b_679)

(*
  @type: ((Bool) => Int);
*)
b2i(c_1369) == IF c_1369 THEN 1 ELSE 0

(*
  @type: (() => Seq({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }));
*)
SF ==
  <<
    (fm(4, 0, TRUE, FALSE)), (fm(4, 2, TRUE, FALSE)), (fm(4, 3, TRUE, FALSE)), (fm(5,
    1, TRUE, FALSE)), (fm(6, 4, TRUE, FALSE)), (fm(4, 2, FALSE, FALSE)), (fm(6, 3,
    FALSE, FALSE)), (fm(5, 2, TRUE, TRUE)), (fm(5, 1, FALSE, TRUE))
  >>

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_896) == IF F_896["sgd"] THEN -(p2((F_896["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_919) ==
  IF F_919["sgd"] THEN p2((F_919["bits"] - 1)) - 1 ELSE p2(F_919["bits"]) - 1

(*
  @type: ((Int, Int) => Int);
*)
rdiv(a_776, b_776) ==
  LET (*
    @type: (() => Int);
  *)
  q == (2 * iabs(a_776) + iabs(b_776)) \div (2 * iabs(b_776))
  IN
  IF (a_776 < 0) = (b_776 < 0) THEN q ELSE -q

(*
  @type: ((Int, Int) => Int);
*)
tdiv(a_730, b_730) ==
  IF (a_730 < 0) = (b_730 < 0)
  THEN iabs(a_730) \div iabs(b_730)
  ELSE -(iabs(a_730) \div iabs(b_730))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
one(F_944) == p2(F_944["frac"])

(*
  @type: ((Int, Int) => Int);
*)
fmod(a_693, b_693) == a_693 - b_693 * fdiv(a_693, b_693)

(*
  @type: ((Int, Int) => Seq(Int));
*)
cmpX(a_1424, b_1424) ==
  <<
    (b2i((a_1424 = b_1424))), (b2i((a_1424 /= b_1424))), (b2i((a_1424 < b_1424))),
    (b2i((a_1424 <= b_1424))), (b2i((a_1424 > b_1424))), (b2i((a_1424 >= b_1424))),
    (sgn((a_1424 - b_1424)))
  >>

(*
  @type: (() => Int);
*)
now == v * p2((4 - (SF)[(fi + 1)]["frac"]))

(*
  @type: (() => Int);
*)
then0 == v0 * p2((4 - (SF)[(f0 + 1)]["frac"]))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_935, v_935) == lo(F_935) <= v_935 /\ v_935 <= hi(F_935)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
convX(F_1217, G_1217, a_1217) ==
  IF G_1217["frac"] >= F_1217["frac"]
  THEN a_1217 * p2((G_1217["frac"] - F_1217["frac"]))
  ELSE IF G_1217["rnd"]
  THEN rdiv(a_1217, (p2((F_1217["frac"] - G_1217["frac"]))))
  ELSE tdiv(a_1217, (p2((F_1217["frac"] - G_1217["frac"]))))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
floorX(F_1122, a_1122) == fdiv(a_1122, (one(F_1122))) * one(F_1122)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
ceilX(F_1138, a_1138) == -(fdiv((-a_1138), (one(F_1138))) * one(F_1138))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
truncX(F_1152, a_1152) == tdiv(a_1152, (one(F_1152))) * one(F_1152)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
roundX(F_1166, a_1166) == rdiv(a_1166, (one(F_1166))) * one(F_1166)

(*
  @type: ((Int, Int) => Int);
*)
tmod(a_744, b_744) == a_744 - b_744 * tdiv(a_744, b_744)

(*
  @type: (() => Bool);
*)
init ==
  \E f \in LET (*@type: (() => Set(Int)); *) __quint_var3 == DOMAIN SF IN
  IF __quint_var3 = {} THEN {} ELSE (__quint_var3 \union {0}) \ {(Len((SF)))}:
    \E x \in lo((SF)[(f + 1)]) .. hi((SF)[(f + 1)]):
      fi = f
        /\ v = x
        /\ f0 = f
        /\ v0 = x
        /\ least = (SF)[(f + 1)]["frac"]
        /\ rounded = FALSE

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
convDef(F_1728, G_1728, a_1728) ==
  (G_1728["frac"] <= F_1728["frac"] \/ iabs(a_1728) < p2(G_1728["bits"]))
    /\ fits(G_1728, (convX(F_1728, G_1728, a_1728)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Int);
*)
rndX(F_1564, op_1564, a_1564) ==
  IF op_1564 = 0
  THEN floorX(F_1564, a_1564)
  ELSE IF op_1564 = 1
  THEN imin((ceilX(F_1564, a_1564)), (hi(F_1564)))
  ELSE IF op_1564 = 2 THEN truncX(F_1564, a_1564) ELSE roundX(F_1564, a_1564)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Seq(Int));
*)
partX(F_1649, a_1649) ==
  <<
    (b2i((a_1649 < 0))), (iabs(a_1649) \div one(F_1649)), (tmod(a_1649, (one(F_1649))))
  >>

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  \E g \in LET (*@type: (() => Set(Int)); *) __quint_var0 == DOMAIN SF IN
  IF __quint_var0 = {} THEN {} ELSE (__quint_var0 \union {0}) \ {(Len((SF)))}:
    convDef((SF)[(fi + 1)], (SF)[(g + 1)], v)
      /\ fi' := g
      /\ v' := (convX((SF)[(fi + 1)], (SF)[(g + 1)], v))
      /\ f0' := f0
      /\ v0' := v0
      /\ least' := (imin(least, (SF)[(g + 1)]["frac"]))
      /\ rounded'
        := (rounded
          \/ ((SF)[(g + 1)]["rnd"]
            /\ (SF)[(g + 1)]["frac"] < (SF)[(fi + 1)]["frac"]))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
thereAndBack(F_1818, G_1818, a_1818) ==
  G_1818["frac"] >= F_1818["frac"] /\ convDef(F_1818, G_1818, a_1818)
    => convX(G_1818, F_1818, (convX(F_1818, G_1818, a_1818))) = a_1818

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Bool);
*)
rndDef(F_1579, op_1579, a_1579) == fits(F_1579, (rndX(F_1579, op_1579, a_1579)))

(*
  @type: (() => Bool);
*)
inv ==
  fits((SF)[(fi + 1)], v)
    /\ (~rounded
      => (iabs((now)) <= iabs((then0)) /\ sgn((now)) * sgn((then0)) >= 0)
        /\ iabs((then0 - now)) < p2((4 - least)))
    /\ (~rounded => now = tdiv((then0), (p2((4 - least)))) * p2((4 - least)))
    /\ iabs((then0 - now)) < 2 * p2((4 - least))
    /\ (least = (SF)[(f0 + 1)]["frac"] => now = then0)
    /\ (\A g_272 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var1 == DOMAIN SF
    IN
    IF __quint_var1 = {} THEN {} ELSE (__quint_var1 \union {0}) \ {(Len((SF)))}:
      thereAndBack((SF)[(fi + 1)], (SF)[(g_272 + 1)], v))
    /\ (\A g_328 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var2 == DOMAIN SF
    IN
    IF __quint_var2 = {} THEN {} ELSE (__quint_var2 \union {0}) \ {(Len((SF)))}:
      \A w_326 \in lo((SF)[(fi + 1)]) .. hi((SF)[(fi + 1)]):
        (v <= w_326 /\ convDef((SF)[(fi + 1)], (SF)[(g_328 + 1)], v))
          /\ convDef((SF)[(fi + 1)], (SF)[(g_328 + 1)], w_326)
          => convX((SF)[(fi + 1)], (SF)[(g_328 + 1)], v)
            <= convX((SF)[(fi + 1)], (SF)[(g_328 + 1)], w_326))
    /\ (\A op_435 \in 0 .. 3:
      rndDef((SF)[(fi + 1)], op_435, v)
        => (\A o2_388 \in 0 .. 3:
            fmod((rndX((SF)[(fi + 1)], op_435, v)), (one((SF)[(fi + 1)]))) = 0
              /\ rndDef((SF)[(fi + 1)], o2_388, (rndX((SF)[(fi + 1)], op_435, v)))
              => rndX((SF)[(fi + 1)], o2_388, (rndX((SF)[(fi + 1)], op_435, v)))
                = rndX((SF)[(fi + 1)], op_435, v))
          /\ iabs((rndX((SF)[(fi + 1)], op_435, v) - v)) < one((SF)[(fi + 1)])
          /\ (\A w_431 \in lo((SF)[(fi + 1)]) .. hi((SF)[(fi + 1)]):
            v <= w_431
              => rndX((SF)[(fi + 1)], op_435, v)
                <= rndX((SF)[(fi + 1)], op_435, w_431)))
    /\ floorX((SF)[(fi + 1)], v) = -(ceilX((SF)[(fi + 1)], (-v)))
    /\ truncX((SF)[(fi + 1)], v)
      = (IF v < 0 THEN ceilX((SF)[(fi + 1)], v) ELSE floorX((SF)[(fi + 1)], v))
    /\ (\A w_557 \in lo((SF)[(fi + 1)]) .. hi((SF)[(fi + 1)]):
      LET (*@type: (() => Seq(Int)); *) c == cmpX(v, w_557) IN
      LET (*@type: (() => Seq(Int)); *) d == cmpX(w_557, v) IN
      (c)[(0 + 1)] + (c)[(1 + 1)] = 1
        /\ (c)[(2 + 1)] + (c)[(5 + 1)] = 1
        /\ (c)[(3 + 1)] + (c)[(4 + 1)] = 1
        /\ (c)[(2 + 1)] = (d)[(4 + 1)]
        /\ (c)[(3 + 1)] = (d)[(5 + 1)]
        /\ (c)[(6 + 1)] = -((d)[(6 + 1)])
        /\ ((c)[(0 + 1)] = 1 <=> (c)[(3 + 1)] = 1 /\ (c)[(5 + 1)] = 1))
    /\ (partX((SF)[(fi + 1)], v))[(2 + 1)]
      + (IF v < 0
      THEN -((partX((SF)[(fi + 1)], v))[(1 + 1)])
      ELSE (partX((SF)[(fi + 1)], v))[(1 + 1)])
        * one((SF)[(fi + 1)])
      = v

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
