\* generated by tools/tlc.py from spec/small_conc.qnt, digest beb12f7b444949c0a61bfafa6bf7899b
------------------------------ MODULE small_conc_early ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
TABS == { 50, 51 }

(*
  @type: (() => Int);
*)
PARTS == 2

VARIABLE
  (*
    @type: (Int -> Str);
  *)
  at

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  op

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  res

(*
  @type: (() => Set(Int));
*)
THREADS == { 0, 1, 2 }

VARIABLE
  (*
    @type: (Int -> { builder: Int, flag: Bool, parts: Int });
  *)
  tab

(*
  @type: ((Int) => Bool);
*)
call(t_105) ==
  \E o \in { 0, 50, 51 }:
    at[t_105] = "idle"
      /\ at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var0 == at IN
        LET (*@type: (() => Set(Int)); *) __quint_var1 == DOMAIN __quint_var0 IN
        [
          __quint_var2 \in {t_105} \union __quint_var1 |->
            IF __quint_var2 = t_105
            THEN "called"
            ELSE (__quint_var0)[__quint_var2]
        ])
      /\ op'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var3 == op IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in {t_105} \union __quint_var4 |->
            IF __quint_var5 = t_105 THEN o ELSE (__quint_var3)[__quint_var5]
        ])
      /\ res' := res
      /\ tab' := tab

(*
  @type: ((Int) => Bool);
*)
enter(t_219) ==
  LET (*@type: (() => Int); *) o == op[t_219] IN
  at[t_219] = "called"
    /\ op' := op
    /\ (IF ~(o \in TABS)
    THEN at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var6 == at IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in {t_219} \union __quint_var7 |->
            IF __quint_var8 = t_219
            THEN "done"
            ELSE (__quint_var6)[__quint_var8]
        ])
      /\ tab' := tab
      /\ res'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var9 == res IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in {t_219} \union __quint_var10 |->
            IF __quint_var11 = t_219
            THEN PARTS
            ELSE (__quint_var9)[__quint_var11]
        ])
    ELSE IF tab[(o)]["flag"]
    THEN at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var12 == at IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var13 == DOMAIN __quint_var12
        IN
        [
          __quint_var14 \in {t_219} \union __quint_var13 |->
            IF __quint_var14 = t_219
            THEN "done"
            ELSE (__quint_var12)[__quint_var14]
        ])
      /\ tab' := tab
      /\ res'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var15 == res IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var16 == DOMAIN __quint_var15
        IN
        [
          __quint_var17 \in {t_219} \union __quint_var16 |->
            IF __quint_var17 = t_219
            THEN tab[(o)]["parts"]
            ELSE (__quint_var15)[__quint_var17]
        ])
    ELSE IF tab[(o)]["builder"] < 0
    THEN at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var18 == at IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var19 == DOMAIN __quint_var18
        IN
        [
          __quint_var20 \in {t_219} \union __quint_var19 |->
            IF __quint_var20 = t_219
            THEN "building"
            ELSE (__quint_var18)[__quint_var20]
        ])
      /\ tab'
        := (LET (*
          @type: (() => (Int -> { builder: Int, flag: Bool, parts: Int }));
        *)
        __quint_var21 == tab
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var22 == DOMAIN __quint_var21
        IN
        [
          __quint_var23 \in {(o)} \union __quint_var22 |->
            IF __quint_var23 = o
            THEN [ tab[(o)] EXCEPT !["builder"] = t_219 ]
            ELSE (__quint_var21)[__quint_var23]
        ])
      /\ res'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var24 == res IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var25 == DOMAIN __quint_var24
        IN
        [
          __quint_var26 \in {t_219} \union __quint_var25 |->
            IF __quint_var26 = t_219 THEN 0 ELSE (__quint_var24)[__quint_var26]
        ])
    ELSE at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var27 == at IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var28 == DOMAIN __quint_var27
        IN
        [
          __quint_var29 \in {t_219} \union __quint_var28 |->
            IF __quint_var29 = t_219
            THEN "waiting"
            ELSE (__quint_var27)[__quint_var29]
        ])
      /\ tab' := tab
      /\ res'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var30 == res IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var31 == DOMAIN __quint_var30
        IN
        [
          __quint_var32 \in {t_219} \union __quint_var31 |->
            IF __quint_var32 = t_219 THEN 0 ELSE (__quint_var30)[__quint_var32]
        ]))

(*
  @type: ((Int) => Bool);
*)
wake(t_335) ==
  at[t_335] = "waiting"
    /\ tab[op[t_335]]["flag"]
    /\ at'
      := (LET (*@type: (() => (Int -> Str)); *) __quint_var33 == at IN
      LET (*@type: (() => Set(Int)); *) __quint_var34 == DOMAIN __quint_var33 IN
      [
        __quint_var35 \in {t_335} \union __quint_var34 |->
          IF __quint_var35 = t_335
          THEN "done"
          ELSE (__quint_var33)[__quint_var35]
      ])
    /\ res'
      := (LET (*@type: (() => (Int -> Int)); *) __quint_var36 == res IN
      LET (*@type: (() => Set(Int)); *) __quint_var37 == DOMAIN __quint_var36 IN
      [
        __quint_var38 \in {t_335} \union __quint_var37 |->
          IF __quint_var38 = t_335
          THEN tab[op[t_335]]["parts"]
          ELSE (__quint_var36)[__quint_var38]
      ])
    /\ op' := op
    /\ tab' := tab

(*
  @type: ((Int) => Bool);
*)
ret(t_364) ==
  at[t_364] = "done"
    /\ at'
      := (LET (*@type: (() => (Int -> Str)); *) __quint_var39 == at IN
      LET (*@type: (() => Set(Int)); *) __quint_var40 == DOMAIN __quint_var39 IN
      [
        __quint_var41 \in {t_364} \union __quint_var40 |->
          IF __quint_var41 = t_364
          THEN "idle"
          ELSE (__quint_var39)[__quint_var41]
      ])
    /\ op'
      := (LET (*@type: (() => (Int -> Int)); *) __quint_var42 == op IN
      LET (*@type: (() => Set(Int)); *) __quint_var43 == DOMAIN __quint_var42 IN
      [
        __quint_var44 \in {t_364} \union __quint_var43 |->
          IF __quint_var44 = t_364 THEN 0 ELSE (__quint_var42)[__quint_var44]
      ])
    /\ res' := res
    /\ tab' := tab

(*
  @type: (() => Bool);
*)
early ==
  \E t \in THREADS:
    at[t] = "building"
      /\ op' := op
      /\ res' := res
      /\ at' := at
      /\ tab'
        := (LET (*
          @type: (() => (Int -> { builder: Int, flag: Bool, parts: Int }));
        *)
        __quint_var45 == tab
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var46 == DOMAIN __quint_var45
        IN
        [
          __quint_var47 \in {op[t]} \union __quint_var46 |->
            IF __quint_var47 = op[t]
            THEN [ tab[op[t]] EXCEPT !["flag"] = TRUE ]
            ELSE (__quint_var45)[__quint_var47]
        ])

(*
  @type: (() => Bool);
*)
twice ==
  \E t \in THREADS:
    at[t] = "waiting"
      /\ op' := op
      /\ res' := res
      /\ at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var48 == at IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var49 == DOMAIN __quint_var48
        IN
        [
          __quint_var50 \in {t} \union __quint_var49 |->
            IF __quint_var50 = t
            THEN "building"
            ELSE (__quint_var48)[__quint_var50]
        ])
      /\ tab'
        := (LET (*
          @type: (() => (Int -> { builder: Int, flag: Bool, parts: Int }));
        *)
        __quint_var51 == tab
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var52 == DOMAIN __quint_var51
        IN
        [
          __quint_var53 \in {op[t]} \union __quint_var52 |->
            IF __quint_var53 = op[t]
            THEN [ tab[op[t]] EXCEPT !["parts"] = 0 ]
            ELSE (__quint_var51)[__quint_var53]
        ])

(*
  @type: (() => Bool);
*)
inv ==
  (\A t_476 \in THREADS: at[t_476] = "done" => res[t_476] = PARTS)
    /\ (\A t_507 \in THREADS:
      \A u_505 \in THREADS:
        (t_507 /= u_505 /\ at[t_507] = "building") /\ at[u_505] = "building"
          => op[t_507] /= op[u_505])
    /\ (\A x_524 \in TABS: tab[x_524]["flag"] => tab[x_524]["parts"] = PARTS)
    /\ (\A x_558 \in TABS:
      tab[x_558]["builder"] >= 0 /\ ~(tab[x_558]["flag"])
        <=> (\E t_555 \in THREADS: at[t_555] = "building" /\ op[t_555] = x_558))
    /\ (\A t_593 \in THREADS:
      at[t_593] = "waiting"
        => tab[op[t_593]]["flag"]
          \/ (\E u_589 \in THREADS:
            at[u_589] = "building" /\ op[u_589] = op[t_593]))
    /\ (\E t_610 \in THREADS: at[t_610] /= "waiting" \/ tab[op[t_610]]["flag"])

(*
  @type: (() => Bool);
*)
init ==
  at = [ t_37 \in THREADS |-> "idle" ]
    /\ op = [ t_44 \in THREADS |-> 0 ]
    /\ res = [ t_51 \in THREADS |-> PARTS ]
    /\ tab = [ x_65 \in TABS |-> [flag |-> FALSE, builder |-> -1, parts |-> 0] ]

(*
  @type: ((Int) => Bool);
*)
write(t_293) ==
  at[t_293] = "building"
    /\ op' := op
    /\ (LET (*@type: (() => Int); *) o == op[t_293] IN
    LET (*
      @type: (() => { builder: Int, flag: Bool, parts: Int });
    *)
    e == tab[(o)]
    IN
    IF (e)["parts"] < PARTS
    THEN tab'
        := (LET (*
          @type: (() => (Int -> { builder: Int, flag: Bool, parts: Int }));
        *)
        __quint_var54 == tab
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var55 == DOMAIN __quint_var54
        IN
        [
          __quint_var56 \in {(o)} \union __quint_var55 |->
            IF __quint_var56 = o
            THEN [ (e) EXCEPT !["parts"] = (e)["parts"] + 1 ]
            ELSE (__quint_var54)[__quint_var56]
        ])
      /\ at' := at
      /\ res' := res
    ELSE tab'
        := (LET (*
          @type: (() => (Int -> { builder: Int, flag: Bool, parts: Int }));
        *)
        __quint_var57 == tab
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var58 == DOMAIN __quint_var57
        IN
        [
          __quint_var59 \in {(o)} \union __quint_var58 |->
            IF __quint_var59 = o
            THEN [ (e) EXCEPT !["flag"] = TRUE ]
            ELSE (__quint_var57)[__quint_var59]
        ])
      /\ at'
        := (LET (*@type: (() => (Int -> Str)); *) __quint_var60 == at IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var61 == DOMAIN __quint_var60
        IN
        [
          __quint_var62 \in {t_293} \union __quint_var61 |->
            IF __quint_var62 = t_293
            THEN "done"
            ELSE (__quint_var60)[__quint_var62]
        ])
      /\ res'
        := (LET (*@type: (() => (Int -> Int)); *) __quint_var63 == res IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var64 == DOMAIN __quint_var63
        IN
        [
          __quint_var65 \in {t_293} \union __quint_var64 |->
            IF __quint_var65 = t_293
            THEN (e)["parts"]
            ELSE (__quint_var63)[__quint_var65]
        ]))

(*
  @type: (() => Bool);
*)
step == \E t \in THREADS: call(t)\/ enter(t)\/ write(t)\/ wake(t)\/ ret(t)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
stepEarly == step \/ early

(*
  @type: (() => Bool);
*)
stepTwice == step \/ twice

(*
  @type: (() => Bool);
*)
q_step == stepEarly

================================================================================
