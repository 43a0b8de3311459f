------------------------------ MODULE MCRtuPorts ------------------------------
(***************************************************************************)
(* The registry algorithm: a table of clients by port name, each with its  *)
(* serial port and its devices by slave id.  Mut plants a design error.     *)
(***************************************************************************)
EXTENDS RtuPorts, SequencesExt, Json
CONSTANTS Names, Units, Bauds, Pars, Tos, MaxDev, Depth, Mut, Record

VARIABLES s, bad, reg, cl, dv, nk, n, script
vars == <<s, bad, reg, cl, dv, nk, n, script>>
(* reg: name -> client number or 0; cl: clients [name, baud, par, k, open, by]
   dv: devices [cl, unit] *)
Init == /\ s = InitState(<<>>) /\ bad = {} /\ reg = [p \in Names |-> 0] /\ cl = <<>> /\ dv = <<>>
        /\ nk = 0 /\ n = 0 /\ script = <<>>

Emit(es) ==
  LET r == FoldLeft(LAMBDA acc, e : IF acc.bad # {} THEN acc
                                    ELSE [bad |-> Clauses(acc.s, e), s |-> Step(acc.s, e)],
                    [bad |-> {}, s |-> s], es) IN
  /\ bad = {} /\ n < Depth /\ n' = n + 1 /\ bad' = r.bad /\ s' = r.s
Note(x) == script' = IF Record THEN Append(script, x) ELSE script
Ret(kind, data) == [e |-> "ret", kind |-> kind, data |-> data, want |-> <<>>]

Device ==
  \E p \in Names, u \in Units, baud \in Bauds, par \in Pars, fail \in BOOLEAN, to \in Tos :
    LET d == Len(dv) + 1
        call == [e |-> "call", op |-> "device", d |-> d, port |-> p, unit |-> u, baud |-> baud, par |-> par, to |-> to]
        r == reg[p]
        b == IF baud = 0 THEN 9600 ELSE baud
        q == IF par = "" THEN "N" ELSE par
        opening(ok) == [e |-> "opening", k |-> nk + 1, port |-> p, baud |-> b, par |-> q, to |-> "0.5",
                        bits |-> 8, stop |-> IF Mut = "twostop" THEN 2 ELSE 1, flow |-> FALSE, ok |-> ok] IN
    /\ Len(dv) < MaxDev
    /\ ~\E x \in DOMAIN s.devs : s.devs[x].open /\ s.devs[x].port = p /\ s.devs[x].unit = u
    /\ (r # 0 => ~fail)
    /\ Note([op |-> "device", d |-> d, port |-> p, unit |-> u, baud |-> baud, par |-> par, to |-> to, fail |-> fail])
    /\ IF r # 0
       THEN IF Mut # "anysettings" /\ ((baud # 0 /\ cl[r].baud # baud) \/ (par # "" /\ cl[r].par # par))
            THEN /\ Emit(<<call, Ret("err", <<>>)>>) /\ UNCHANGED <<reg, cl, nk>>
                 /\ dv' = Append(dv, [cl |-> 0, unit |-> u])
            ELSE /\ Emit(<<call, Ret("ok", <<>>)>>)
                 /\ cl' = [cl EXCEPT ![r].by = (u :> d) @@ @]
                 /\ dv' = Append(dv, [cl |-> r, unit |-> u]) /\ UNCHANGED <<reg, nk>>
       ELSE IF fail
       THEN /\ Emit(<<call, opening(FALSE), Ret("err", <<>>)>>)
            /\ dv' = Append(dv, [cl |-> 0, unit |-> u]) /\ nk' = nk + 1
            /\ IF Mut = "failreg" THEN /\ cl' = Append(cl, [name |-> p, baud |-> b, par |-> q, k |-> 0, by |-> << >>])
                                       /\ reg' = [reg EXCEPT ![p] = Len(cl) + 1]
               ELSE UNCHANGED <<cl, reg>>
       ELSE /\ Emit(<<call, opening(TRUE), Ret("ok", <<>>)>>)
            /\ cl' = Append(cl, [name |-> p, baud |-> b, par |-> q, k |-> nk + 1, by |-> (u :> d)])
            /\ reg' = [reg EXCEPT ![p] = Len(cl) + 1]
            /\ dv' = Append(dv, [cl |-> Len(cl) + 1, unit |-> u])
            /\ nk' = nk + 1

Close ==
  \E d \in DOMAIN dv :
    LET c == dv[d].cl
        call == [e |-> "call", op |-> "close", d |-> d]
        mine == c # 0 /\ dv[d].unit \in DOMAIN cl[c].by /\ (Mut = "anydevice" \/ cl[c].by[dv[d].unit] = d)
        left == IF c = 0 THEN {} ELSE DOMAIN cl[c].by \ {dv[d].unit}
        empty == mine /\ (left = {} \/ Mut = "closeany") IN
    /\ dv[d].cl # 0
    /\ Note([op |-> "close", d |-> d])
    /\ Emit(<<call>> \o (IF empty /\ Mut # "leave" THEN <<[e |-> "closing", k |-> cl[c].k]>> ELSE <<>>) \o <<Ret("ok", <<>>)>>)
    /\ cl' = IF mine THEN [cl EXCEPT ![c].by = [u \in left |-> @[u]]] ELSE cl
    /\ reg' = IF (empty \/ (Mut = "anyclient" /\ c # 0 /\ left = {})) /\ (reg[cl[c].name] = c \/ Mut = "anyclient")
              THEN [reg EXCEPT ![cl[c].name] = 0] ELSE reg
    /\ UNCHANGED <<dv, nk>>

Read ==
  \E d \in DOMAIN dv :
    /\ Live(s, d)
    /\ Note([op |-> "read", d |-> d])
    /\ Emit(<<[e |-> "call", op |-> "read", d |-> d],
              [e |-> "send", k |-> cl[dv[d].cl].k, unit |-> dv[d].unit, to |-> Port(s, s.devs[d].port).to],
              Ret("ok", <<>>)>>)
    /\ UNCHANGED <<reg, cl, dv, nk>>

Next == Device \/ Close \/ Read
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
(* the table and the contract agree on which ports are open                 *)
Agreement == bad = {} => \A p \in Names : (reg[p] # 0) <=> IsOpen(s, p)
PrintScripts == (Record /\ n = Depth) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
