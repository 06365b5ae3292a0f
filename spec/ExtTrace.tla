------------------------------ MODULE ExtTrace ------------------------------
(* Several databases in one process whose fields may refer to records and    *)
(* values of databases that were registered before (E01).                    *)
(* All records are kept in one Store: home says which database a record      *)
(* lives in, own which database holds the value in a field (0: the field     *)
(* itself, or nothing to hold).  Each database counts only what is its own.  *)
EXTENDS StoreTrace
VARIABLES home, own, regs, nreg, nidx
xvars == <<home, own, regs, nreg, nidx>>
MAX_EXTDB == 20
XIs(op) == Is(op)
Same == UNCHANGED <<svars, xvars>>
Mine(d) == {h \in Live : home[h] = d}
Visible(d) == {d} \cup regs[d]
ORef(d, v, w) == IF v < 0 THEN home[-v] ELSE w                 \* the database that v belongs to, 0: none
SetOK(h, c, v, w) == HasCol(h, c) /\ (v < 0 \/ w # 0 => ORef(home[h], v, w) \in Visible(home[h]))
XPut(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
XReset == /\ IsQ("reset") /\ open' = << >> /\ recs' = << >> /\ addr' = << >> /\ idx' = << >>
          /\ home' = << >> /\ own' = << >> /\ regs' = [d \in 1..Ev.n |-> {}] /\ nreg' = [d \in 1..Ev.n |-> 0] /\ nidx' = [d \in 1..Ev.n |-> {}]
XCreate == /\ XIs("create") /\ Ev.h > 0 /\ Create(Ev.h, Ev.n, Ev.a)
           /\ home' = XPut(home, Ev.h, Ev.d) /\ own' = XPut(own, Ev.h, [i \in 1..Ev.n |-> 0]) /\ UNCHANGED <<regs, nreg, nidx>>
XSet == /\ XIs("set")
        /\ IF SetOK(Ev.h, Ev.c, Ev.v, Ev.w) /\ (Ev.new = 1 => Fld(Ev.h, Ev.c) = NULL)
           THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v) /\ own' = [own EXCEPT ![Ev.h][Ev.c + 1] = Ev.w] /\ UNCHANGED <<home, regs, nreg, nidx>>
           ELSE Ev.r < 0 /\ Same
(* an atomic update takes only what fits into the field itself, whoever holds it *)
XASet == /\ XIs("aset")
         /\ IF HasCol(Ev.h, Ev.c) /\ Ev.v >= 0 /\ Ev.w = 0 /\ IsImm(Ev.v) /\ IsImm(Fld(Ev.h, Ev.c)) /\ (\A k \in nidx[home[Ev.h]] : k[1] # Ev.c)
            THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v) /\ UNCHANGED xvars
            ELSE Ev.r < 0 /\ Same
XGet == XIs("get") /\ Same /\ Ev.v = Fld(Ev.h, Ev.c) /\ Ev.w = own[Ev.h][Ev.c + 1]
LocalParents(h) == {p \in Mine(home[h]) : h \in Refs(p)}
XDel == /\ XIs("del")
        /\ IF Ev.d = home[Ev.h] /\ LocalParents(Ev.h) = {}
           THEN /\ Ev.r = 0 /\ recs' = Restrict(recs, Live \ {Ev.h}) /\ addr' = Restrict(addr, Live \ {Ev.h}) /\ idx' = idx
                /\ home' = Restrict(home, Live \ {Ev.h}) /\ own' = Restrict(own, Live \ {Ev.h}) /\ UNCHANGED <<regs, nreg, nidx>>
           ELSE Ev.r < 0 /\ Same
XReg == /\ XIs("reg")
        /\ IF nidx[Ev.d] = {} /\ nreg[Ev.d] < MAX_EXTDB
           THEN Ev.r = 0 /\ regs' = [regs EXCEPT ![Ev.d] = @ \cup {Ev.e}] /\ nreg' = [nreg EXCEPT ![Ev.d] = @ + 1] /\ UNCHANGED <<svars, home, own, nidx>>
           ELSE Ev.r < 0 /\ Same
XIdx == /\ XIs("mkidx")
        /\ IF nreg[Ev.d] = 0 /\ <<Ev.c, Ev.type>> \notin nidx[Ev.d] THEN Ev.r = 0 /\ nidx' = [nidx EXCEPT ![Ev.d] = @ \cup {<<Ev.c, Ev.type>>}] /\ UNCHANGED <<svars, home, own, regs, nreg>>
           ELSE Ev.r < 0 /\ Same
XDrop == XIs("drop") /\ Ev.r = 0 /\ nidx' = [nidx EXCEPT ![Ev.d] = @ \ {<<Ev.c, Ev.type>>}] /\ UNCHANGED <<svars, home, own, regs, nreg>>
XOwner == XIs("owner") /\ Same /\ Ev.r = IF home[Ev.h] \in Visible(Ev.d) THEN home[Ev.h] ELSE 0
(* a value of e in the terms of d: it is the same value, and freeing it there frees nothing *)
XTrans == XIs("trans") /\ Same /\ Ev.v = Ev.x /\ Ev.same = 1
XCmp == XIs("cmp") /\ Same /\ Ev.r = Compare(Ev.a, Ev.b)
XScan == XIs("scan") /\ Same /\ ExactSet(Ev.r, Mine(Ev.d))
XPar == XIs("par") /\ Same /\ ExactSet(Ev.r, LocalParents(Ev.h))
XQuery == /\ XIs("query") /\ Same /\ ExactSet(Ev.r, {h \in Mine(Ev.d) : Satisfies(h, Ev.conds)})
XFind == /\ XIs("find") /\ Same /\ ExactSet(Ev.r, {h \in Mine(Ev.d) : HasCol(h, Ev.c) /\ Test(Ev.cond, Fld(h, Ev.c), Ev.v)})
XSnap == /\ XIs("snap") /\ Same /\ ExactSet(Ev.hs, Live)
         /\ \A i \in 1..Len(Ev.hs) : recs[Ev.hs[i]] = Ev.fs[i] /\ own[Ev.hs[i]] = Ev.ws[i]
(* a database that refers to others cannot be saved *)
XDump == XIs("dump") /\ Same /\ (Ev.r = 0) = (nreg[Ev.d] = 0)
(* ---- what each database holds ---- *)
Cells(d, P(_, _)) == FoldFunctionOnSet(LAMBDA x, n : n + x, 0, [h \in Mine(d) |-> Cardinality({i \in 1..Len(recs[h]) : P(recs[h][i], own[h][i])})], Mine(d))
HeldX(d) == {v \in UNION {{recs[h][i] : i \in {j \in 1..Len(recs[h]) : own[h][j] = d}} : h \in Mine(d)} : IsLong(v)}
StoredX(d) == HeldX(d) \cup {v \in {Tab.extra[w] : w \in HeldX(d)} : IsLong(v)}
XStrs == /\ XIs("strs") /\ Same
         /\ ExactSet([i \in 1..Len(Ev.r) |-> Ev.r[i][1]], StoredX(Ev.d))
         /\ \A i \in 1..Len(Ev.r) : LET v == Ev.r[i][1] IN
              Ev.r[i][2] = Cells(Ev.d, LAMBDA x, w : x = v /\ w = Ev.d) + Cardinality({w \in HeldX(Ev.d) : Tab.extra[w] = v})
UsesX(d, k) == Cells(d, LAMBDA x, w : x > 0 /\ w = d /\ Tab.cls[x] = k)
XAcct == /\ XIs("acct") /\ Same
         /\ ExactSet(Ev.recs, {addr[h] : h \in Mine(Ev.d)})
         /\ Ev.longs = Cardinality(StoredX(Ev.d))
         /\ Ev.words = UsesX(Ev.d, "word") /\ Ev.dwords = UsesX(Ev.d, "dword")
         /\ Ev.shorts = UsesX(Ev.d, "short") + Cardinality({v \in StoredX(Ev.d) : Tab.extra[v] > 0 /\ Tab.cls[Tab.extra[v]] = "short"})
         /\ nidx[Ev.d] = {} => Ev.cells = Cells(Ev.d, LAMBDA x, w : x < 0 /\ home[-x] = Ev.d)
XInit == TraceInit /\ home = << >> /\ own = << >> /\ regs = << >> /\ nreg = << >> /\ nidx = << >>
XNext == XReset \/ XCreate \/ XSet \/ XASet \/ XGet \/ XDel \/ XReg \/ XIdx \/ XDrop \/ XOwner \/ XTrans \/ XCmp \/ XScan \/ XPar \/ XQuery \/ XFind \/ XSnap \/ XDump \/ XStrs \/ XAcct
XSpec == XInit /\ [][XNext]_<<vars, xvars>>
=============================================================================
