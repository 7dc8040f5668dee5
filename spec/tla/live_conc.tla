----------------------------- MODULE live_conc -----------------------------
\* Under weak fairness of the steps a thread makes on its own, every call returns: nobody waits for ever.
EXTENDS small_conc
vars == <<at, op, res, tab>>
Fair == \A t \in {0, 1, 2}: WF_vars(enter(t)) /\ WF_vars(write(t)) /\ WF_vars(wake(t)) /\ WF_vars(ret(t))
Spec == q_init /\ [][q_step]_vars /\ Fair
Live == \A t \in {0, 1, 2}: (at[t] = "called") ~> (at[t] = "idle")
=============================================================================
