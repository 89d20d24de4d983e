------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates recorded executions of the real library: every event of the   *)
(* log must be a step the specification allows.  A log holds many          *)
(* scenarios, each starting with a Start event; after a mismatch the rest  *)
(* of that scenario is skipped, so that one log reports all bad scenarios. *)
(***************************************************************************)
EXTENDS Library, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)

VARIABLES S, l, mode, cnt              \* mode: "go", "skip" (rest of a rejected scenario), "end" (program has ended)
vars == <<S, l, mode, cnt>>

Rng(q) == {q[i] : i \in 1..Len(q)}
Get(o, f, d) == IF f \in DOMAIN o THEN o[f] ELSE d

\* the choices the implementation made, read off its outputs
Choice(e) ==
  [h   |-> IF "h" \in DOMAIN e.o THEN e.o.h ELSE Get(e.o, "req", 0),
   g   |-> Get(e.o, "g", 0),
   idx |-> IF "idx" \in DOMAIN e.o THEN e.o.idx ELSE (IF e.op \in {"Testsome", "Waitsome"} THEN <<>> ELSE 0),
   o   |-> e.o]

Chg(e) == {<<c[1], c[2]>> : c \in Rng(e.chg)}
Died(e) == e.end \in {"abort", "exit", "crash", "hang"}
Spoke(e) == e.ob + e.eb > 0

FatalEnd(e) == (e.end = "abort" \/ (e.end = "exit" /\ e.o.code # 0)) /\ Spoke(e)
FatalOk(R, e) ==
  IF e.op = "Abort" THEN e.end = "exit" /\ e.o.code = e.a.code % 256 /\ Spoke(e) /\ Chg(e) = {}
  ELSE FatalEnd(e) /\ {c[1] : c \in Chg(e)} \subseteq R.may /\ e.stray = 0

SilentOk(R, e) ==
  \/ R.out[1] = "free"
  \/ R.S.cfg.hinfo = 1 /\ e.ob = 0
  \/ R.out[1] = "none" /\ ~Spoke(e)
  \/ R.out[1] = "warn" /\ e.ob = 0 /\ e.eb > 0
     /\ LET ns == R.out[2] nr == R.out[3] ws == Rng(e.ws) wr == Rng(e.wr)
        IN (ns > 0 => ns \in ws) /\ (nr > 0 => nr \in wr) /\ ws \subseteq {ns, nr} /\ wr \subseteq {ns, nr}

OkEnd(R, e) ==
  /\ e.end = "ok" /\ Get(e.o, "ret", 0) = 0 /\ e.stray = 0
  /\ R.ok
  /\ \A f \in DOMAIN R.x : f \in DOMAIN e.o /\ e.o[f] = R.x[f]
  /\ SilentOk(R, e)
  /\ R.st \subseteq {<<s[1], s[2], s[3]>> : s \in Rng(e.st)}
  /\ R.un \cap Rng(e.stch) = {}
  /\ Chg(e) = Visible(S, R.w)

\* human readable account of a rejected event
Why(R, e) ==
  (IF R.fatal = "must" THEN "the program had to end here with a diagnostic; " ELSE "")
  \o (IF R.fatal # "must" /\ e.end # "ok" THEN "the call had to return; " ELSE "")
  \o (IF e.end = "ok" /\ R.fatal # "must" THEN
        (IF Get(e.o, "ret", 0) # 0 THEN "return code; " ELSE "")
        \o (IF e.stray # 0 THEN "wrote outside its outputs; " ELSE "")
        \o (IF ~R.ok THEN "result not allowed; " ELSE "")
        \o (IF ~(\A f \in DOMAIN R.x : f \in DOMAIN e.o /\ e.o[f] = R.x[f]) THEN "outputs; " ELSE "")
        \o (IF ~SilentOk(R, e) THEN "printed output; " ELSE "")
        \o (IF ~(R.st \subseteq {<<s[1], s[2], s[3]>> : s \in Rng(e.st)}) THEN "status; " ELSE "")
        \o (IF R.un \cap Rng(e.stch) # {} THEN "status touched; " ELSE "")
        \o (IF Chg(e) # Visible(S, R.w) THEN "memory; " ELSE "")
      ELSE "")
Some(A) == IF Cardinality(A) <= 24 THEN A ELSE <<"many", Cardinality(A), CHOOSE x \in A : TRUE>>
Expect(R, e) ==
  [fatal |-> R.fatal, outputs |-> R.x, status |-> R.st, untouched |-> R.un, print |-> R.out,
   missing_stores |-> Some(Visible(S, R.w) \ Chg(e)), wrong_stores |-> Some(Chg(e) \ Visible(S, R.w))]

Init == S = InitState([seed |-> 0, fr |-> 4, fd |-> 8, hinfo |-> 0, tc |-> 0, conly |-> 0, bound |-> 262143]) /\ l = 1 /\ mode = "end" /\ cnt = [ev |-> 0, sc |-> 0, bad |-> 0]

Reject(e, why, exp) ==
  /\ PrintT(<<"MISMATCH", S.cfg.name, l, ToJson([why |-> why, op |-> e.op, event |-> e, expected |-> ToString(exp)])>>)
  /\ mode' = "skip" /\ UNCHANGED S /\ cnt' = [cnt EXCEPT !.bad = @ + 1]

Step ==
  /\ l <= N
  /\ l' = l + 1
  /\ LET e == Log[l] IN
     IF e.op = "Start" THEN PrintT(<<"AT", e.a.name>>) /\ S' = InitState(e.a) /\ mode' = "go" /\ cnt' = [cnt EXCEPT !.sc = @ + 1]
     ELSE IF mode = "skip" THEN UNCHANGED <<S, mode, cnt>>
     ELSE IF mode = "end" THEN Reject(e, "events after the program ended", <<>>)
     ELSE IF e.op = "Died" THEN Reject(e, "died outside of any call", <<>>)
     ELSE IF e.op = "Abort"
     THEN IF FatalOk(Base(S), e) THEN mode' = "end" /\ UNCHANGED S /\ cnt' = [cnt EXCEPT !.ev = @ + 1] ELSE Reject(e, "abort", <<>>)
     ELSE LET R == Do(S, e.op, e.b, e.a, Choice(e)) IN
          IF R.fatal \in {"must", "may"} /\ Died(e) /\ FatalOk(R, e)
          THEN mode' = "end" /\ UNCHANGED S /\ cnt' = [cnt EXCEPT !.ev = @ + 1]
          ELSE IF R.fatal # "must" /\ OkEnd(R, e)
          THEN LET S2 == Store(R.S, Chg(e)) IN
               IF StepOk(S2, e.op) THEN S' = S2 /\ UNCHANGED mode /\ cnt' = [cnt EXCEPT !.ev = @ + 1]
               ELSE Reject(e, "invariant violated", <<>>)
          ELSE Reject(e, Why(R, e), Expect(R, e))

Position == <<l, mode>>                \* the log determines the rest
Finish == l = N + 1 /\ l' = N + 2 /\ PrintT(<<"DONE", cnt.ev, cnt.sc, cnt.bad>>) /\ UNCHANGED <<S, mode, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
