--------------------------- MODULE RedirectTrace -----------------------------
(* A failing library call may leave several states behind: sts are the states   *)
(* which agree with everything that has been recorded.                          *)
EXTENDS Redirect, TLC, Json, IOUtils, FiniteSets
CONSTANTS NF, NH, NO
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES sts, tid, l
T == Traces[tid].t
vars == <<sts, tid, l>>
Init == sts = {Start(NF, NH, NO)} /\ tid \in 1..Len(Traces) /\ l = 1
(* may: may be redirected, err: has errors, er: codes, nm: name is as given     *)
(* Where messages cannot be formatted, an object still knows there are errors.  *)
ObjOk(x, r, mute) == x.k # "moved" =>
  /\ r.may = May(x) /\ r.err = (x.er # <<>>) /\ (r.er = x.er \/ mute)
  /\ r.nm = (IF x.k = "none" THEN -3 ELSE x.file)
Agrees(e, s) ==
  /\ e.at = At(s)
  /\ \A i \in 1..NO : ObjOk(s.o[i], e.obj[i], e.mute)
  /\ \A x \in 1..NF : e.fs[x].ex = s.fs[x].ex /\ e.fs[x].c = s.fs[x].c
  /\ e.fds = Cardinality({i \in 1..NO : IsOpen(s, i)}) + Cardinality({h \in 1..NH : s.f[h] # 0})
Next == \/ /\ l <= Len(T)
           /\ LET e == T[l] IN
              /\ \A s \in sts : Legal(e.o, s)
              /\ sts' = {x.st : x \in {y \in UNION {Outcomes(e.o, s, e.fault) : s \in sts} : y.r = e.r /\ Agrees(e, y.st)}}
              /\ sts' # {}
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
