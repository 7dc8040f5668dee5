\* generated by tools/tlc.py from spec/small_stream.qnt, digest ed3e343b206f059136894e6c065bdbb6
----------------------------- MODULE small_stream -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
N == 4

VARIABLE
  (*
    @type: Seq(Int);
  *)
  cs

VARIABLE
  (*
    @type: Int;
  *)
  v

VARIABLE
  (*
    @type: Seq(Int);
  *)
  got

VARIABLE
  (*
    @type: Bool;
  *)
  open

(*
  @type: ((Seq(Int), Int) => Bool);
*)
filterAt(l_557, c_557) ==
  LET (*
    @type: ((Bool, Int) => Bool);
  *)
  __QUINT_LAMBDA0(b_555, x_555) == b_555 \/ x_555 = c_557
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, FALSE, l_557)

VARIABLE
  (*
    @type: { bad: Bool, eof: Bool, pos: Int, skip: Bool };
  *)
  st

(*
  @type: ((Int, Int, Bool, Bool) => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
fm(bits_843, frac_843, sgd_843, rnd_843) ==
  [bits |-> bits_843, frac |-> frac_843, sgd |-> sgd_843, rnd |-> rnd_843]

(*
  @type: ((Int) => Bool);
*)
isSpace(c_1378) == c_1378 = 32 \/ (9 <= c_1378 /\ c_1378 <= 13)

(*
  @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan0 ==
  [neg |-> FALSE, ip |-> 0, d |-> 0, k |-> 0, mode |-> 0, n |-> 0, digits |-> 0]

(*
  @type: ((Int) => Bool);
*)
isDigit(c_1362) == 48 <= c_1362 /\ c_1362 <= 57

(*
  @type: ((Int, Int) => Int);
*)
imin(a_583, b_583) == IF a_583 < b_583 THEN a_583 ELSE b_583

(*
  @type: ((Int) => Int);
*)
p2(k_621) == 2 ^ k_621

(*
  @type: ((Seq(Int), Int) => Int);
*)
upTo(cs_1784, stop_1784) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA6(e_1782, i_1782) ==
    IF e_1782 = Len(cs_1784) /\ cs_1784[(i_1782 + 1)] = stop_1784
    THEN i_1782
    ELSE e_1782
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA6, (Len(cs_1784)), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA5(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((Len(cs_1784) - 0), __QUINT_LAMBDA5)))

(*
  @type: (() => { bits: Int, frac: Int, rnd: Bool, sgd: Bool });
*)
F == fm(6, 2, TRUE, FALSE)

(*
  @type: (() => Bool);
*)
clear ==
  (st["eof"] \/ st["bad"])
    /\ cs' := cs
    /\ st' := [ [ st EXCEPT !["eof"] = FALSE ] EXCEPT !["bad"] = FALSE ]
    /\ v' := v
    /\ got' := got
    /\ open' := FALSE

(*
  @type: (() => Bool);
*)
blanks ==
  cs' := cs
    /\ st' := [ st EXCEPT !["skip"] = ~(st["skip"]) ]
    /\ v' := v
    /\ got' := got
    /\ open' := FALSE

(*
  @type: (() => Bool);
*)
take ==
  ~(st["eof"])
    /\ ~(st["bad"])
    /\ st["pos"] < Len(cs)
    /\ cs' := cs
    /\ st' := [ st EXCEPT !["pos"] = st["pos"] + 1 ]
    /\ v' := v
    /\ got' := got
    /\ open' := FALSE

(*
  @type: (() => Bool);
*)
init ==
  cs = <<>>
    /\ st = [pos |-> 0, eof |-> FALSE, bad |-> FALSE, skip |-> TRUE]
    /\ v = 5
    /\ got = <<>>
    /\ open = TRUE

(*
  @type: (() => Bool);
*)
grow ==
  \E c \in { 49, 57, 46, 45, 32, 120 }:
    open
      /\ Len(cs) < N
      /\ cs' := (Append(cs, c))
      /\ st' := st
      /\ v' := v
      /\ got' := got
      /\ open' := TRUE

(*
  @type: ((Seq(Int), Int) => Int);
*)
skipTo(cs_1881, p_1881) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA2(q_1879, i_1879) ==
    IF q_1879 = i_1879 /\ isSpace(cs_1881[(i_1879 + 1)])
    THEN q_1879 + 1
    ELSE q_1879
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, p_1881, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA1(__quint_var0) == (p_1881 + __quint_var0) - 1
  IN
  MkSeq((Len(cs_1881) - p_1881), __QUINT_LAMBDA1)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
one(F_908) == p2(F_908["frac"])

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
lo(F_860) == IF F_860["sgd"] THEN -(p2((F_860["bits"] - 1))) ELSE 0

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }) => Int);
*)
hi(F_883) ==
  IF F_883["sgd"] THEN p2((F_883["bits"] - 1)) - 1 ELSE p2(F_883["bits"]) - 1

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan1(F_1554, s_1554, c_1554) ==
  IF s_1554["mode"] = 3
  THEN s_1554
  ELSE IF s_1554["mode"] = 0 /\ c_1554 = 45
  THEN [
    [ [ s_1554 EXCEPT !["neg"] = TRUE ] EXCEPT !["mode"] = 1 ] EXCEPT
      !["n"] = s_1554["n"] + 1
  ]
  ELSE IF s_1554["mode"] < 2 /\ c_1554 = 46
  THEN [ [ s_1554 EXCEPT !["mode"] = 2 ] EXCEPT !["n"] = s_1554["n"] + 1 ]
  ELSE IF ~(isDigit(c_1554))
  THEN [ s_1554 EXCEPT !["mode"] = 3 ]
  ELSE IF s_1554["mode"] < 2
  THEN [
    [
      [
        [
          s_1554 EXCEPT
            !["ip"] =
              imin((s_1554["ip"] * 10 + c_1554 - 48), (p2((F_1554["bits"] + 6))))
        ] EXCEPT
          !["mode"] = 1
      ] EXCEPT
        !["n"] = s_1554["n"] + 1
    ] EXCEPT
      !["digits"] = s_1554["digits"] + 1
  ]
  ELSE IF s_1554["d"] > (one(F_1554) - 1) \div 10 \/ s_1554["k"] >= 38
  THEN [
    [ s_1554 EXCEPT !["n"] = s_1554["n"] + 1 ] EXCEPT
      !["digits"] = s_1554["digits"] + 1
  ]
  ELSE [
    [
      [
        [ s_1554 EXCEPT !["d"] = s_1554["d"] * 10 + c_1554 - 48 ] EXCEPT
          !["k"] = s_1554["k"] + 1
      ] EXCEPT
        !["n"] = s_1554["n"] + 1
    ] EXCEPT
      !["digits"] = s_1554["digits"] + 1
  ]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int) => Bool);
*)
fits(F_899, v_899) == lo(F_899) <= v_899 /\ v_899 <= hi(F_899)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
magOf(F_1605, s_1605) ==
  s_1605["ip"] * one(F_1605) + (s_1605["d"] * one(F_1605)) \div 10 ^ s_1605["k"]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Seq(Int), Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
*)
scan(F_1579, cs_1579, start_1579) ==
  LET (*
    @type: (({ d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }, Int) => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  __QUINT_LAMBDA4(s_1577, i_1577) ==
    scan1(F_1579, s_1577, cs_1579[(i_1577 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA4, (scan0), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA3(__quint_var1) == (start_1579 + __quint_var1) - 1
  IN
  MkSeq((Len(cs_1579) - start_1579), __QUINT_LAMBDA3)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Int);
*)
numOf(F_1623, s_1623) ==
  IF s_1623["neg"] THEN -(magOf(F_1623, s_1623)) ELSE magOf(F_1623, s_1623)

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool }) => Bool);
*)
inRange(F_1650, s_1650) ==
  s_1650["ip"] < p2((F_1650["bits"] - F_1650["frac"] + 2))
    /\ fits(F_1650, (numOf(F_1650, s_1650)))

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Seq(Int), { bad: Bool, eof: Bool, pos: Int, skip: Bool }, Int) => { st: { bad: Bool, eof: Bool, pos: Int, skip: Bool }, v: Int });
*)
extractX(F_1998, cs_1998, st_1998, old_1998) ==
  IF st_1998["eof"] \/ st_1998["bad"]
  THEN [st |-> [ st_1998 EXCEPT !["bad"] = TRUE ], v |-> old_1998]
  ELSE LET (*
    @type: (() => Int);
  *)
  p ==
    IF st_1998["skip"] THEN skipTo(cs_1998, st_1998["pos"]) ELSE st_1998["pos"]
  IN
  IF st_1998["skip"] /\ p = Len(cs_1998)
  THEN [st |->
      [
        [ [ st_1998 EXCEPT !["pos"] = p ] EXCEPT !["eof"] = TRUE ] EXCEPT
          !["bad"] = TRUE
      ],
    v |-> old_1998]
  ELSE LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_1998, cs_1998, (p))
  IN
  LET (*
    @type: (() => Bool);
  *)
  ok == (s)["digits"] > 0 /\ inRange(F_1998, (s))
  IN
  [st |->
      [
        [
          [ st_1998 EXCEPT !["pos"] = p + (s)["n"] ] EXCEPT
            !["eof"] = p + (s)["n"] = Len(cs_1998)
        ] EXCEPT
          !["bad"] = ~ok
      ],
    v |-> IF ok THEN numOf(F_1998, (s)) ELSE old_1998]

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int)) => Seq(Int));
*)
strictX(F_1686, old_1686, cs_1686) ==
  LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_1686, cs_1686, 0)
  IN
  IF (s)["n"] = Len(cs_1686) /\ inRange(F_1686, (s))
  THEN <<1, (numOf(F_1686, (s)))>>
  ELSE <<0, old_1686>>

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int)) => Seq(Int));
*)
lenientX(F_1715, old_1715, cs_1715) ==
  LET (*
    @type: (() => { d: Int, digits: Int, ip: Int, k: Int, mode: Int, n: Int, neg: Bool });
  *)
  s == scan(F_1715, cs_1715, 0)
  IN
  IF inRange(F_1715, (s)) THEN <<1, (numOf(F_1715, (s)))>> ELSE <<0, old_1715>>

(*
  @type: (() => Bool);
*)
extract ==
  LET (*
    @type: (() => { st: { bad: Bool, eof: Bool, pos: Int, skip: Bool }, v: Int });
  *)
  e == extractX((F), cs, st, v)
  IN
  cs' := cs
    /\ st' := (e)["st"]
    /\ v' := (e)["v"]
    /\ got' := (IF (e)["st"]["bad"] THEN got ELSE Append(got, (e)["st"]["pos"]))
    /\ open' := FALSE

(*
  @type: (({ bits: Int, frac: Int, rnd: Bool, sgd: Bool }, Int, Seq(Int), Int) => Seq(Int));
*)
ioX(F_1823, old_1823, cs_1823, stop_1823) ==
  LET (*@type: (() => Int); *) e == upTo(cs_1823, stop_1823) IN
  LET (*
    @type: (() => Seq(Int));
  *)
  r == strictX(F_1823, old_1823, (SubSeq(cs_1823, (0 + 1), (e))))
  IN
  <<(IF (r)[(0 + 1)] = 1 THEN e ELSE 0), (r)[(1 + 1)]>>

(*
  @type: (() => Bool);
*)
inv ==
  LET (*
    @type: (() => { st: { bad: Bool, eof: Bool, pos: Int, skip: Bool }, v: Int });
  *)
  e == extractX((F), cs, st, v)
  IN
  LET (*@type: (() => Seq(Int)); *) s == strictX((F), 7, cs) IN
  LET (*@type: (() => Seq(Int)); *) l == lenientX((F), 7, cs) IN
  fits((F), v)
    /\ 0 <= st["pos"]
    /\ st["pos"] <= Len(cs)
    /\ (\A i_268 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var3 == DOMAIN got
    IN
    IF __quint_var3 = {} THEN {} ELSE (__quint_var3 \union {0}) \ {(Len(got))}:
      i_268 > 0 => got[(i_268 - 1 + 1)] < got[(i_268 + 1)])
    /\ Len(got) <= 2
    /\ ((e)["st"]["bad"] => (e)["v"] = v)
    /\ (st["bad"] \/ st["eof"]
      => (e)["st"]["pos"] = st["pos"] /\ (e)["st"]["bad"])
    /\ st["pos"] <= (e)["st"]["pos"]
    /\ fits((F), (e)["v"])
    /\ ((e)["st"]["eof"] /\ ~(st["eof"]) => (e)["st"]["pos"] = Len(cs))
    /\ ((~((e)["st"]["bad"]) /\ (e)["st"]["pos"] < Len(cs))
      /\ (e)["st"]["pos"] > 0
      => ~(isDigit(cs[((e)["st"]["pos"] + 1)])))
    /\ ((s)[(0 + 1)] = 1 => l = s)
    /\ (((s)[(0 + 1)] = 0 => (s)[(1 + 1)] = 7)
      /\ ((l)[(0 + 1)] = 0 => (l)[(1 + 1)] = 7))
    /\ (fits((F), (s)[(1 + 1)]) /\ fits((F), (l)[(1 + 1)]))
    /\ (((s)[(0 + 1)] = 1 /\ Len(cs) > 0) /\ cs[(0 + 1)] /= 45
      => strictX((F), 7, (<<48>> \o cs)) = s)
    /\ ((s)[(0 + 1)] = 1 /\ filterAt(cs, 46)
      => strictX((F), 7, (Append(cs, 48))) = s)
    /\ ((((s)[(0 + 1)] = 1 /\ Len(cs) > 0) /\ cs[(0 + 1)] /= 45)
      /\ (s)[(1 + 1)] > 0
      => strictX((F), 7, (<<45>> \o cs)) = <<1, -((s)[(1 + 1)])>>)
    /\ (LET (*@type: (() => Seq(Int)); *) r == ioX((F), 7, cs, 32) IN
    LET (*@type: (() => Int); *) w == upTo(cs, 32) IN
    (r)[(1 + 1)] = (strictX((F), 7, (SubSeq(cs, (0 + 1), (w)))))[(1 + 1)]
      /\ ((r)[(0 + 1)] = w \/ (r)[(0 + 1)] = 0))

(*
  @type: (() => Bool);
*)
step == grow\/ extract\/ clear\/ blanks\/ take

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
