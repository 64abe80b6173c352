----------------------------- MODULE Slice1Trace -----------------------------
(***************************************************************************)
(* Is a recorded execution of the real code a behaviour of Slice1?         *)
(* One trace line per action; consecutive callbacks may share one line     *)
(* ("cbs"), which is their sequential composition.  Lines "crash", "hang"  *)
(* and "build" match no action.                                            *)
(***************************************************************************)
EXTENDS Slice1, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<mem, rank, view, call, live, obs, memo, frames, l>>

Ev == Log[l]
Is(e) == l <= Len(Log) /\ Ev.e = e /\ l' = l + 1

TNew    == Is("new")    /\ New(Ev.mem, Ev.rank)
TForget == Is("forget") /\ Forget
TView   == Is("view")   /\ View([off |-> Ev.off, st |-> Ev.st, n |-> Ev.n])
TCall   == Is("call")   /\ Call([ op |-> Ev.op, form |-> Ev.form, k |-> Ev.k, idx |-> Ev.idx, tgt |-> Ev.tgt,
                                  cons |-> Ev.cons, eqk |-> Ev.eqk, sz |-> Ev.sz, spare |-> Ev.spare,
                                  sig |-> Ev.sig, cbs |-> Ev.cbs ])
\* a callback record is <<step, thread, kind, a, b, answer>>
Cb(x) == [s |-> x[1], t |-> x[2], k |-> x[3], a |-> x[4], b |-> x[5], r |-> x[6]]
TCallbacks ==
  /\ Is("cbs") /\ ~Idle
  /\ LET cs == [ i \in 1..Len(Ev.l) |-> Cb(Ev.l[i]) ]
         shown == ViewedIds
         s == FoldLeft(LAMBDA x, cb : CbStep(x, cb, shown), [live |-> live, obs |-> obs], cs) IN
       /\ (Clauses \cap s.obs.bad = {})
       /\ live' = s.live /\ obs' = s.obs
  /\ UNCHANGED <<mem, rank, view, call, memo, frames>>
Out == [ how |-> Ev.how, p |-> Ev.p, res |-> Ev.res, logical |-> Ev.logical, other |-> Ev.other,
         cnt |-> Ev.cnt, heap |-> Ev.heap, asks |-> obs.asks ]
TRet  == Is("ret")  /\ Return(Out)
TUnw  == Is("unw")  /\ Unwind(Out)
TPeek == Is("peek") /\ Peek(Ev.mem)
TSwap == Is("swap") /\ Swap(Ev.i, Ev.j)
TWide == Is("wide") /\ Wide(Ev)
TNest == Is("nest") /\ Suspend
TBack == Is("back") /\ Resume

TInit == Init /\ l = 1
TNext == TNew \/ TForget \/ TView \/ TCall \/ TCallbacks \/ TRet \/ TUnw \/ TPeek \/ TSwap \/ TWide \/ TNest \/ TBack
TSpec == TInit /\ [][TNext]_tvars

Deepest == TLCGet("stats").diameter
Accepted ==
  IF Deepest - 1 = Len(Log) THEN TRUE
  ELSE /\ PrintT(<<"REJECTED", Deepest, Log[Deepest].e>>)
       /\ FALSE
\* Diagnosis only: which clauses a line breaks (evaluated in every state, printed when a line is about to be refused)
Explain ==
  IF l <= Len(Log) /\ Ev.e \in {"ret", "unw"} /\ ~Idle /\ Broken(Out) # {}
  THEN PrintT(<<"BROKEN", l, Broken(Out)>>) ELSE TRUE
==============================================================================
