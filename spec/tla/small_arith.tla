\* generated by tools/tlc.py from spec/small_arith.qnt, digest 9ee34692cab98471f1d830ba0a3a1e4c
------------------------------ MODULE small_arith ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  fi

VARIABLE
  (*
    @type: Seq(Int);
  *)
  regs

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_1047, frac_1047, sgd_1047, rnd_1047) ==
  [bits |-> bits_1047, frac |-> frac_1047, sgd |-> sgd_1047, rnd |-> rnd_1047]

(*
  @type: ((Int) => Int);
*)
iabs(a_774) == IF a_774 < 0 THEN -a_774 ELSE a_774

(*
  @type: ((Int) => Int);
*)
p2(k_825) == 2 ^ k_825

(*
  @type: ((Int, Int) => Int);
*)
fdiv(a_847, b_847) ==
  IF a_847 >= 0 THEN a_847 \div b_847 ELSE -(((b_847 - 1) - a_847) \div b_847)

(*
  @type: ((Int) => Int);
*)
sgn(a_817) == IF a_817 < 0 THEN -1 ELSE IF a_817 > 0 THEN 1 ELSE 0

(*
  @type: (() => Seq({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }));
*)
SF ==
  <<
    (fm(3, 1, TRUE, FALSE)), (fm(3, 1, FALSE, FALSE)), (fm(3, 2, TRUE, TRUE)), (fm(4,
    2, TRUE, FALSE))
  >>

(*
  @type: ((Int, Int) => Int);
*)
rdiv(a_944, b_944) ==
  LET (*
    @type: (() => Int);
  *)
  q == (2 * iabs(a_944) + iabs(b_944)) \div (2 * iabs(b_944))
  IN
  IF (a_944 < 0) = (b_944 < 0) THEN q ELSE -q

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
one(F_1112) == p2(F_1112["frac"])

(*
  @type: ((Int, Int) => Int);
*)
tdiv(a_898, b_898) ==
  IF (a_898 < 0) = (b_898 < 0)
  THEN iabs(a_898) \div iabs(b_898)
  ELSE -(iabs(a_898) \div iabs(b_898))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_1064) == IF F_1064["sgd"] THEN -(p2((F_1064["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_1087) ==
  IF F_1087["sgd"] THEN p2((F_1087["bits"] - 1)) - 1 ELSE p2(F_1087["bits"]) - 1

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Int);
*)
mulX(F_1241, a_1241, b_1241) ==
  IF F_1241["rnd"]
  THEN rdiv((a_1241 * b_1241), (one(F_1241)))
  ELSE fdiv((a_1241 * b_1241), (one(F_1241)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Int);
*)
divX(F_1266, a_1266, b_1266) ==
  IF F_1266["rnd"]
  THEN rdiv((a_1266 * one(F_1266)), b_1266)
  ELSE tdiv((a_1266 * one(F_1266)), b_1266)

(*
  @type: ((Int, Int) => Int);
*)
tmod(a_912, b_912) == a_912 - b_912 * tdiv(a_912, b_912)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_1103, v_1103) == lo(F_1103) <= v_1103 /\ v_1103 <= hi(F_1103)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Int);
*)
unaX(F_1849, u_1849, a_1849) ==
  IF u_1849 = 0
  THEN -a_1849
  ELSE IF u_1849 <= 2 THEN a_1849 + one(F_1849) ELSE a_1849 - one(F_1849)

(*
  @type: (() => Bool);
*)
init ==
  \E f \in LET (*@type: (() => Set(Int)); *) __quint_var0 == DOMAIN SF IN
  IF __quint_var0 = {} THEN {} ELSE (__quint_var0 \union {0}) \ {(Len((SF)))}:
    fi = f /\ regs = <<0, 0>>

(*
  @type: ((Int, Int) => Int);
*)
remX(a_1276, b_1276) == tmod(a_1276, b_1276)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
negDef(F_1822, a_1822) == fits(F_1822, (-a_1822))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Bool);
*)
unaDef(F_1869, u_1869, a_1869) ==
  fits(F_1869, (one(F_1869))) /\ fits(F_1869, (unaX(F_1869, u_1869, a_1869)))

(*
  @type: (() => Bool);
*)
load ==
  \E k \in 0 .. 1:
    \E n \in -8 .. 15:
      fits((SF)[(fi + 1)], n)
        /\ fi' := fi
        /\ regs' := [ regs EXCEPT ![k + 1] = n ]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int) => Bool);
*)
laws(F_678, a_678, b_678) ==
  mulX(F_678, a_678, (one(F_678))) = a_678
    /\ divX(F_678, a_678, (one(F_678))) = a_678
    /\ mulX(F_678, a_678, b_678) = mulX(F_678, b_678, a_678)
    /\ mulX(F_678, a_678, 0) = 0
    /\ iabs((mulX(F_678, a_678, b_678) * one(F_678) - a_678 * b_678))
      < one(F_678)
    /\ (F_678["rnd"]
      => 2 * iabs((mulX(F_678, a_678, b_678) * one(F_678) - a_678 * b_678))
          <= one(F_678)
        /\ mulX(F_678, (-a_678), b_678) = -(mulX(F_678, a_678, b_678)))
    /\ (b_678 /= 0
      => iabs((divX(F_678, a_678, b_678) * b_678 - a_678 * one(F_678)))
          < iabs(b_678)
        /\ (F_678["rnd"]
          => 2 * iabs((divX(F_678, a_678, b_678) * b_678 - a_678 * one(F_678)))
            <= iabs(b_678))
        /\ divX(F_678, (-a_678), b_678) = -(divX(F_678, a_678, b_678))
        /\ divX(F_678, a_678, (-b_678)) = -(divX(F_678, a_678, b_678))
        /\ iabs((remX(a_678, b_678))) < iabs(b_678)
        /\ (remX(a_678, b_678) = 0 \/ sgn((remX(a_678, b_678))) = sgn(a_678))
        /\ tdiv(a_678, b_678) * b_678 + remX(a_678, b_678) = a_678
        /\ (b_678 > 0
          => divX(F_678, (mulX(F_678, a_678, b_678)), b_678)
            <= (a_678 + p2(F_678["frac"]) \div b_678) + 1))
    /\ (\A c_675 \in lo(F_678) .. hi(F_678):
      a_678 <= c_675
        => (b_678 >= 0 => mulX(F_678, a_678, b_678) <= mulX(F_678, c_675, b_678))
          /\ (b_678 > 0
            => divX(F_678, a_678, b_678) <= divX(F_678, c_675, b_678)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int, Int) => Int);
*)
binX(F_1572, op_1572, a_1572, b_1572) ==
  IF op_1572 = 0
  THEN a_1572 + b_1572
  ELSE IF op_1572 = 1
  THEN a_1572 - b_1572
  ELSE IF op_1572 = 2
  THEN mulX(F_1572, a_1572, b_1572)
  ELSE IF op_1572 = 3
  THEN divX(F_1572, a_1572, b_1572)
  ELSE remX(a_1572, b_1572)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int, Int) => Bool);
*)
binDef(F_1628, op_1628, a_1628, b_1628) ==
  IF op_1628 >= 3 /\ b_1628 = 0
  THEN FALSE
  ELSE IF op_1628 = 4
  THEN TRUE
  ELSE IF (op_1628 = 2 /\ b_1628 /= 0)
    /\ iabs(a_1628) > p2((F_1628["bits"] + F_1628["frac"])) \div iabs(b_1628)
  THEN FALSE
  ELSE fits(F_1628, (binX(F_1628, op_1628, a_1628, b_1628)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int, Int, Int) => Int);
*)
mixX(F_1788, op_1788, side_1788, a_1788, n_1788) ==
  IF op_1788 = 2
  THEN a_1788 * n_1788
  ELSE IF op_1788 = 3 /\ side_1788 = 0
  THEN tdiv(a_1788, n_1788)
  ELSE IF side_1788 = 0
  THEN binX(F_1788, op_1788, a_1788, (n_1788 * one(F_1788)))
  ELSE binX(F_1788, op_1788, (n_1788 * one(F_1788)), a_1788)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int, Int, Int) => Bool);
*)
mixDef(F_1737, op_1737, side_1737, a_1737, n_1737) ==
  IF op_1737 = 2
  THEN n_1737 = 0
    \/ (iabs(a_1737) <= p2(F_1737["bits"]) \div iabs(n_1737)
      /\ fits(F_1737, (a_1737 * n_1737)))
  ELSE IF op_1737 = 3 /\ side_1737 = 0
  THEN n_1737 /= 0 /\ fits(F_1737, (tdiv(a_1737, n_1737)))
  ELSE (iabs(n_1737) < p2(F_1737["bits"])
      /\ fits(F_1737, (n_1737 * one(F_1737))))
    /\ (IF side_1737 = 0
    THEN binDef(F_1737, op_1737, a_1737, (n_1737 * one(F_1737)))
    ELSE binDef(F_1737, op_1737, (n_1737 * one(F_1737)), a_1737))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Int, Seq(Int), Int, Int, Int, Int) => { ok: Bool, regs: Seq(Int), thr: Bool });
*)
stepX(F_2460, form_2460, op_2460, regs_2460, i_2460, j_2460, k_2460, n_2460) ==
  LET (*@type: (() => Int); *) a == regs_2460[(i_2460 + 1)] IN
  LET (*@type: (() => Int); *) b == regs_2460[(j_2460 + 1)] IN
  LET (*
    @type: (() => { ok: Bool, regs: Seq(Int), thr: Bool });
  *)
  no == [regs |-> regs_2460, thr |-> FALSE, ok |-> FALSE]
  IN
  LET (*
    @type: (() => { ok: Bool, regs: Seq(Int), thr: Bool });
  *)
  throws == [regs |-> regs_2460, thr |-> TRUE, ok |-> TRUE]
  IN
  IF form_2460 = 0
  THEN [regs |-> [ regs_2460 EXCEPT ![k_2460 + 1] = n_2460 ],
    thr |-> FALSE,
    ok |-> fits(F_2460, n_2460)]
  ELSE IF form_2460 = 1
  THEN IF binDef(F_2460, op_2460, (a), (b))
  THEN [regs |->
      [ regs_2460 EXCEPT ![k_2460 + 1] = binX(F_2460, op_2460, (a), (b)) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 2
  THEN IF binDef(F_2460, op_2460, (a), (b))
  THEN [regs |->
      [ regs_2460 EXCEPT ![i_2460 + 1] = binX(F_2460, op_2460, (a), (b)) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 3
  THEN IF b = 0
  THEN throws
  ELSE IF binDef(F_2460, 3, (a), (b))
  THEN [regs |-> [ regs_2460 EXCEPT ![k_2460 + 1] = binX(F_2460, 3, (a), (b)) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 4
  THEN IF b = 0
  THEN throws
  ELSE IF binDef(F_2460, 3, (a), (b))
  THEN [regs |-> [ regs_2460 EXCEPT ![i_2460 + 1] = binX(F_2460, 3, (a), (b)) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 5
  THEN IF negDef(F_2460, (a))
  THEN [regs |-> [ regs_2460 EXCEPT ![k_2460 + 1] = -a ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 >= 6 /\ form_2460 <= 9
  THEN LET (*@type: (() => Int); *) x == unaX(F_2460, (form_2460 - 5), (a)) IN
  IF ~(unaDef(F_2460, (form_2460 - 5), (a)))
  THEN no
  ELSE [regs |->
      [
        [ regs_2460 EXCEPT ![i_2460 + 1] = x ] EXCEPT
          ![k_2460 + 1] = IF form_2460 = 6 \/ form_2460 = 8 THEN x ELSE a
      ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE IF form_2460 = 10
  THEN IF mixDef(F_2460, op_2460, 0, (a), n_2460)
  THEN [regs |->
      [ regs_2460 EXCEPT ![k_2460 + 1] = mixX(F_2460, op_2460, 0, (a), n_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 11
  THEN IF mixDef(F_2460, op_2460, 1, (a), n_2460)
  THEN [regs |->
      [ regs_2460 EXCEPT ![k_2460 + 1] = mixX(F_2460, op_2460, 1, (a), n_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 12
  THEN IF mixDef(F_2460, op_2460, 0, (a), n_2460)
  THEN [regs |->
      [ regs_2460 EXCEPT ![i_2460 + 1] = mixX(F_2460, op_2460, 0, (a), n_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 13
  THEN IF n_2460 = 0
  THEN throws
  ELSE IF mixDef(F_2460, 3, 0, (a), n_2460)
  THEN [regs |->
      [ regs_2460 EXCEPT ![k_2460 + 1] = mixX(F_2460, 3, 0, (a), n_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 14
  THEN IF n_2460 = 0
  THEN throws
  ELSE IF mixDef(F_2460, 3, 0, (a), n_2460)
  THEN [regs |->
      [ regs_2460 EXCEPT ![i_2460 + 1] = mixX(F_2460, 3, 0, (a), n_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 15
  THEN IF iabs(n_2460) < p2(F_2460["bits"])
    /\ fits(F_2460, (n_2460 * one(F_2460)))
  THEN [regs |-> [ regs_2460 EXCEPT ![k_2460 + 1] = n_2460 * one(F_2460) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no
  ELSE IF form_2460 = 16
  THEN [regs |-> [ regs_2460 EXCEPT ![k_2460 + 1] = a ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE IF ~(binDef(F_2460, op_2460, (a), (b)))
  THEN no
  ELSE LET (*@type: (() => Int); *) x == binX(F_2460, op_2460, (a), (b)) IN
  LET (*
    @type: (() => Seq(Int));
  *)
  r1 == [ regs_2460 EXCEPT ![i_2460 + 1] = x ]
  IN
  LET (*@type: (() => Int); *) y == (r1)[(k_2460 + 1)] IN
  IF binDef(F_2460, op_2460, (x), (y))
  THEN [regs |-> [ (r1) EXCEPT ![i_2460 + 1] = binX(F_2460, op_2460, (x), (y)) ],
    thr |-> FALSE,
    ok |-> TRUE]
  ELSE no

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Seq(Int), Int, Int, Int, Int, Int, Int) => Bool);
*)
stepLaws(F_436, regs0_436, form_436, op_436, i_436, j_436, k_436, n_436) ==
  LET (*
    @type: (() => { ok: Bool, regs: Seq(Int), thr: Bool });
  *)
  s == stepX(F_436, form_436, op_436, regs0_436, i_436, j_436, k_436, n_436)
  IN
  (s)["ok"]
    => (\A r_175 \in 0 .. 1: fits(F_436, (s)["regs"][(r_175 + 1)]))
      /\ ((s)["thr"]
        => (s)["regs"] = regs0_436
          /\ (((form_436 = 3 \/ form_436 = 4) \/ form_436 = 13) \/ form_436 = 14))
      /\ (form_436 = 3 \/ form_436 = 4
        => (s)["thr"] = (regs0_436[(j_436 + 1)] = 0))
      /\ (form_436 = 13 \/ form_436 = 14 => (s)["thr"] = (n_436 = 0))
      /\ (\A r_255 \in 0 .. 1:
        r_255 /= i_436 /\ r_255 /= k_436
          => (s)["regs"][(r_255 + 1)] = regs0_436[(r_255 + 1)])
      /\ (form_436 = 1
        => (LET (*
          @type: (() => { ok: Bool, regs: Seq(Int), thr: Bool });
        *)
        t == stepX(F_436, 2, op_436, regs0_436, i_436, j_436, k_436, n_436)
        IN
        (t)["ok"] /\ (t)["regs"][(i_436 + 1)] = (s)["regs"][(k_436 + 1)]))
      /\ ((form_436 = 10 /\ op_436 /= 2) /\ op_436 /= 3
        => fits(F_436, (n_436 * one(F_436)))
          /\ (s)["regs"][(k_436 + 1)]
            = binX(F_436, op_436, regs0_436[(i_436 + 1)], (n_436 * one(F_436))))
      /\ ((form_436 = 10 /\ op_436 = 2) /\ fits(F_436, (n_436 * one(F_436)))
        => (s)["regs"][(k_436 + 1)]
          = mulX(F_436, regs0_436[(i_436 + 1)], (n_436 * one(F_436))))
      /\ (((form_436 = 10 /\ op_436 = 3) /\ fits(F_436, (n_436 * one(F_436))))
        /\ ~(F_436["rnd"])
        => (s)["regs"][(k_436 + 1)]
          = divX(F_436, regs0_436[(i_436 + 1)], (n_436 * one(F_436))))
      /\ (form_436 = 6
        => (stepX(F_436, 8, op_436, (s)["regs"], i_436, j_436, k_436, n_436))[
          "regs"
        ][
          (i_436 + 1)
        ]
          = regs0_436[(i_436 + 1)])
      /\ (form_436 = 8
        => (stepX(F_436, 6, op_436, (s)["regs"], i_436, j_436, k_436, n_436))[
          "regs"
        ][
          (i_436 + 1)
        ]
          = regs0_436[(i_436 + 1)])

(*
  @type: (() => Bool);
*)
exec ==
  \E form \in 1 .. 17:
    \E op \in 0 .. 4:
      \E i \in 0 .. 1:
        \E k \in 0 .. 1:
          LET (*
            @type: (() => { ok: Bool, regs: Seq(Int), thr: Bool });
          *)
          s == stepX((SF)[(fi + 1)], form, op, regs, i, (1 - i), k, 3)
          IN
          (s)["ok"] /\ fi' := fi /\ regs' := (s)["regs"]

(*
  @type: (() => Bool);
*)
inv ==
  laws((SF)[(fi + 1)], regs[(0 + 1)], regs[(1 + 1)])
    /\ (\A form_759 \in 0 .. 17:
      \A op_757 \in 0 .. 4:
        \A i_755 \in 0 .. 1:
          \A j_753 \in 0 .. 1:
            \A k_751 \in 0 .. 1:
              \A n_749 \in IF form_759 = 0 \/ (form_759 >= 10 /\ form_759 <= 15)
              THEN { (-9), (-2), (-1), 0, 1, 2, 3, 5, 16 }
              ELSE {1}:
                stepLaws((SF)[(fi + 1)], regs, form_759, op_757, i_755, j_753, k_751,
                n_749))

(*
  @type: (() => Bool);
*)
step == load \/ exec

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
