\* generated by tools/tlc.py from spec/small_rng.qnt, digest 160684a5094d36f4eca6a3ff909c2919
------------------------------- MODULE small_rng -------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq(Int);
  *)
  drawn

VARIABLE
  (*
    @type: Int;
  *)
  since

(*
  @type: (() => { inc: Int, init: Int, mixm: Int, mult: Int, n: Int, xorm: Int });
*)
E == [n |-> 2, init |-> 3, mult |-> 3, inc |-> 1, mixm |-> 1, xorm |-> 1]

VARIABLE
  (*
    @type: Seq({ seed: Int, st: Int });
  *)
  es

(*
  @type: (({ seed: Int, st: Int }) => Int);
*)
place(e_60) == e_60["seed"] * 4 + e_60["st"]

(*
  @type: ((Int) => Int);
*)
p2(k_494) == 2 ^ k_494

(*
  @type: ((Int, Int) => Int);
*)
imin(a_456, b_456) == IF a_456 < b_456 THEN a_456 ELSE b_456

(*
  @type: ((Int, Int) => Int);
*)
imax(a_469, b_469) == IF a_469 > b_469 THEN a_469 ELSE b_469

(*
  @type: ((Int, Int, Int, Int, Bool) => Bool);
*)
eqOk(s1_1550, q1_1550, s2_1550, q2_1550, same_1550) ==
  same_1550 = (s1_1550 = s2_1550 /\ q1_1550 = q2_1550)

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_716, frac_716, sgd_716, rnd_716) ==
  [bits |-> bits_716, frac |-> frac_716, sgd |-> sgd_716, rnd |-> rnd_716]

(*
  @type: ((Int, Int) => Int);
*)
fdiv(a_516, b_516) ==
  IF a_516 >= 0 THEN a_516 \div b_516 ELSE -(((b_516 - 1) - a_516) \div b_516)

(*
  @type: (({ inc: Int, init: Int, mixm: Int, mult: Int, n: Int, xorm: Int }, { seed: Int, st: Int }, Int) => { seed: Int, st: Int });
*)
advX(E_1490, e_1490, z_1490) ==
  [seed |-> e_1490["seed"], st |-> (e_1490["st"] + z_1490) % p2(E_1490["n"])]

(*
  @type: (({ inc: Int, init: Int, mixm: Int, mult: Int, n: Int, xorm: Int }, Int) => { seed: Int, st: Int });
*)
fresh(E_1509, seed_1509) ==
  [seed |-> seed_1509 % p2(E_1509["n"]), st |-> E_1509["init"]]

(*
  @type: (() => Bool);
*)
copy ==
  \E i \in 0 .. 1:
    es' := [ es EXCEPT ![i + 1] = es[(1 - i + 1)] ]
      /\ drawn' := drawn
      /\ since' := 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_733) == IF F_733["sgd"] THEN -(p2((F_733["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_756) ==
  IF F_756["sgd"] THEN p2((F_756["bits"] - 1)) - 1 ELSE p2(F_756["bits"]) - 1

(*
  @type: ((Int, Int) => Int);
*)
fmod(a_530, b_530) == a_530 - b_530 * fdiv(a_530, b_530)

(*
  @type: (() => Bool);
*)
both ==
  es' := <<(advX((E), es[(0 + 1)], 1)), (advX((E), es[(1 + 1)], 1))>>
    /\ drawn' := <<(place(es[(0 + 1)])), (place(es[(1 + 1)]))>>
    /\ since'
      := (IF es[(0 + 1)] = es[(1 + 1)]
      THEN imin(5, (imax(0, since) + 1))
      ELSE -1)

(*
  @type: (() => Bool);
*)
skip ==
  \E i \in 0 .. 1:
    \E z \in 0 .. 9:
      es' := [ es EXCEPT ![i + 1] = advX((E), es[(i + 1)], z) ]
        /\ drawn' := drawn
        /\ since' := (-1)

(*
  @type: (() => Bool);
*)
reseed ==
  \E i \in 0 .. 1:
    \E s \in 0 .. 7:
      es' := [ es EXCEPT ![i + 1] = fresh((E), s) ]
        /\ drawn' := drawn
        /\ since' := (-1)

(*
  @type: ((Int, Int) => Int);
*)
wrapS(a_638, n_638) ==
  LET (*@type: (() => Int); *) m == fmod(a_638, (p2(n_638))) IN
  IF m >= p2((n_638 - 1)) THEN m - p2(n_638) ELSE m

(*
  @type: ((Int, Int) => Int);
*)
wrapU(a_649, n_649) == fmod(a_649, (p2(n_649)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_772, v_772) == lo(F_772) <= v_772 /\ v_772 <= hi(F_772)

(*
  @type: (() => Bool);
*)
init ==
  es = <<(fresh((E), 1)), (fresh((E), 1))>>
    /\ drawn = <<(-1), (-1)>>
    /\ since = 0

(*
  @type: (() => Bool);
*)
draw ==
  \E i \in 0 .. 1:
    es' := [ es EXCEPT ![i + 1] = advX((E), es[(i + 1)], 1) ]
      /\ drawn' := [ drawn EXCEPT ![i + 1] = place(es[(i + 1)]) ]
      /\ since' := (-1)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Int);
*)
adaptX(F_1571, u_1571) ==
  IF F_1571["sgd"]
  THEN wrapS(u_1571, F_1571["bits"])
  ELSE wrapU(u_1571, F_1571["bits"])

(*
  @type: (() => Bool);
*)
step == draw\/ both\/ skip\/ reseed\/ copy

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
inv ==
  (\A i_268 \in 0 .. 1:
      ((0 <= es[(i_268 + 1)]["seed"] /\ es[(i_268 + 1)]["seed"] < 4)
          /\ 0 <= es[(i_268 + 1)]["st"])
        /\ es[(i_268 + 1)]["st"] < 4)
    /\ (since >= 0 => es[(0 + 1)] = es[(1 + 1)])
    /\ (since > 0 => drawn[(0 + 1)] = drawn[(1 + 1)])
    /\ (\A a_320 \in 0 .. 9:
      \A b_318 \in 0 .. 9:
        advX((E), (advX((E), es[(0 + 1)], a_320)), b_318)
          = advX((E), es[(0 + 1)], (a_320 + b_318)))
    /\ advX((E), es[(0 + 1)], 4) = es[(0 + 1)]
    /\ eqOk(es[(0 + 1)]["seed"], es[(0 + 1)]["st"], es[(1 + 1)]["seed"], es[
      (1 + 1)
    ][
      "st"
    ], (es[(0 + 1)] = es[(1 + 1)]))
    /\ (\A s_395 \in { TRUE, FALSE }:
      \A r_393 \in lo((fm(3, 1, s_395, FALSE))) .. hi((fm(3, 1, s_395, FALSE))):
        \E u_391 \in 0 .. 15: adaptX((fm(3, 1, s_395, FALSE)), u_391) = r_393)
    /\ (\A u_428 \in 0 .. 15:
      fits((fm(3, 1, TRUE, FALSE)), (adaptX((fm(3, 1, TRUE, FALSE)), u_428)))
        /\ fits((fm(3, 1, FALSE, FALSE)), (adaptX((fm(3, 1, FALSE, FALSE)), u_428))))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
