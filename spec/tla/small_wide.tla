\* generated by tools/tlc.py from spec/small_wide.qnt, digest bda2479ed7603f789e7b191240309e6b
------------------------------ MODULE small_wide ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  num

(*
  @type: (() => Int);
*)
Wd == 3

VARIABLE
  (*
    @type: Seq(Int);
  *)
  acc

(*
  @type: ((Int) => Int);
*)
p2(k_260) == 2 ^ k_260

(*
  @type: ((Int, Int) => Int);
*)
fdiv(a_282, b_282) ==
  IF a_282 >= 0 THEN a_282 \div b_282 ELSE -(((b_282 - 1) - a_282) \div b_282)

(*
  @type: ((Int, Int) => Int);
*)
imax(a_235, b_235) == IF a_235 > b_235 THEN a_235 ELSE b_235

(*
  @type: ((Int, Int) => Int);
*)
imin(a_222, b_222) == IF a_222 < b_222 THEN a_222 ELSE b_222

(*
  @type: (() => Bool);
*)
init == acc = <<0, 0>> /\ num = 0

(*
  @type: ((Int, Int) => Int);
*)
unsigW(w_1002, x_1002) == IF x_1002 < 0 THEN x_1002 + p2(w_1002) ELSE x_1002

(*
  @type: ((Int, Int) => Int);
*)
fshr(a_307, k_307) == fdiv(a_307, (p2(k_307)))

(*
  @type: ((Int, Int) => Int);
*)
sigW(w_1021, x_1021) ==
  IF x_1021 >= p2((w_1021 - 1)) THEN x_1021 - p2(w_1021) ELSE x_1021

(*
  @type: ((Int, Int) => Int);
*)
fmod(a_296, b_296) == a_296 - b_296 * fdiv(a_296, b_296)

(*
  @type: ((Int, Int) => Bool);
*)
wordW(w_986, x_986) == -(p2((w_986 - 1))) <= x_986 /\ x_986 < p2((w_986 - 1))

(*
  @type: ((Int, Seq(Int)) => Int);
*)
toW(w_1193, a_1193) ==
  IF a_1193[(0 + 1)] > 0 \/ (a_1193[(0 + 1)] = 0 /\ a_1193[(1 + 1)] < 0)
  THEN p2((w_1193 - 1)) - 1
  ELSE IF a_1193[(0 + 1)] < -1 \/ (a_1193[(0 + 1)] = -1 /\ a_1193[(1 + 1)] >= 0)
  THEN -(p2((w_1193 - 1)))
  ELSE a_1193[(1 + 1)]

(*
  @type: ((Seq(Int)) => Int);
*)
value(a_27) == a_27[(0 + 1)] * p2((Wd)) + unsigW((Wd), a_27[(1 + 1)])

(*
  @type: ((Int, Int) => Seq(Int));
*)
wordsW(w_1039, v_1039) ==
  <<(fshr(v_1039, w_1039)), (sigW(w_1039, (fmod(v_1039, (p2(w_1039))))))>>

(*
  @type: ((Int, Seq(Int), Seq(Int)) => Int);
*)
sumLowW(w_1061, a_1061, b_1061) ==
  unsigW(w_1061, a_1061[(1 + 1)]) + unsigW(w_1061, b_1061[(1 + 1)])

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
load == \E x \in -8 .. 7: acc' := (wordsW((Wd), x)) /\ num' := x

(*
  @type: ((Int, Seq(Int), Seq(Int)) => Int);
*)
sumHighW(w_1090, a_1090, b_1090) ==
  (a_1090[(0 + 1)] + b_1090[(0 + 1)])
    + (IF sumLowW(w_1090, a_1090, b_1090) >= p2(w_1090) THEN 1 ELSE 0)

(*
  @type: ((Int, Seq(Int), Seq(Int)) => Seq(Int));
*)
sumW(w_1133, a_1133, b_1133) ==
  <<
    (sumHighW(w_1133, a_1133, b_1133)), (sigW(w_1133, (sumLowW(w_1133, a_1133, b_1133)
      % p2(w_1133))))
  >>

(*
  @type: ((Int, Seq(Int), Seq(Int)) => Bool);
*)
sumDefW(w_1107, a_1107, b_1107) ==
  wordW(w_1107, (sumHighW(w_1107, a_1107, b_1107)))

(*
  @type: (() => Bool);
*)
inv ==
  num = value(acc)
    /\ wordW((Wd), acc[(0 + 1)])
    /\ wordW((Wd), acc[(1 + 1)])
    /\ toW((Wd), acc) = imax((-4), (imin(3, num)))
    /\ (\A h_194 \in -4 .. 3:
      \A l_192 \in -4 .. 3:
        sumW((Wd), acc, <<h_194, l_192>>) = sumW((Wd), <<h_194, l_192>>, acc)
          /\ (sumDefW((Wd), acc, <<h_194, l_192>>)
            <=> num + value(<<h_194, l_192>>) >= -32
              /\ num + value(<<h_194, l_192>>) < 32)
          /\ (sumDefW((Wd), acc, <<h_194, l_192>>)
            => value((sumW((Wd), acc, <<h_194, l_192>>)))
              = num + value(<<h_194, l_192>>)))

(*
  @type: (() => Bool);
*)
add ==
  \E h \in -4 .. 3:
    \E l \in -4 .. 3:
      sumDefW((Wd), acc, <<h, l>>)
        /\ acc' := (sumW((Wd), acc, <<h, l>>))
        /\ num' := (num + value(<<h, l>>))

(*
  @type: (() => Bool);
*)
step == add \/ load

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
