---------------------------- MODULE SharedTrace ----------------------------
(* Databases in shared memory (M01): names, attached processes, contents.    *)
(* A segment exists from the attach that creates it until it is deleted by   *)
(* name; it then loses its name, and goes away with its last attachment.     *)
(* A handle is one attachment of one process.  Processes end in any way.     *)
(* An attach can be stopped half way (`start`) while others go on; a         *)
(* database that is being created cannot be attached to until it is complete.*)
(* Contents: a sequence of numbers (one per record) per segment.             *)
(* After every event `segs` is what the system holds:                        *)
(*   <<id, key, size, mode, attachments, owner>>                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, proc,      \* [process -> <<uid, gid, may remove what others own, may access it>>]: what the system lets root do is not the same everywhere
          seg,          \* [id -> segment]
          hand,         \* [handle -> <<process, id>>]
          pend          \* [process in the middle of an attach -> how far it is]
vars == <<l, proc, seg, hand, pend>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Less(f, S) == [y \in DOMAIN f \ S |-> f[y]]
DEFAULTKEY == 1000
DEFAULTSIZE == 10000000
INTMAX == 2147483647

(* ---- names: a decimal number, everything else means the default ---- *)
Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Dig(c) == c >= 48 /\ c <= 57
RECURSIVE SkipB(_), Num(_, _)
SkipB(s) == IF s # << >> /\ Blank(s[1]) THEN SkipB(Tail(s)) ELSE s
Num(s, x) == IF s = << >> \/ ~ Dig(s[1]) THEN x ELSE Num(Tail(s), 10 * x + s[1] - 48)
NameKey(s) == LET t == SkipB(s)
                  neg == t # << >> /\ t[1] = 45
                  u == IF t # << >> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
                  n == IF neg THEN 0 ELSE Num(u, 0)
              IN IF n = 0 \/ n = INTMAX THEN DEFAULTKEY ELSE n
(* ---- permissions: the owner always, others read and write or nothing ---- *)
Rw(d) == IF d \in {6, 7} THEN 6 ELSE 0
Mode(m) == 6 * 64 + 8 * Rw((m \div 8) % 8) + Rw(m % 8)
May(p, s) == LET u == proc[p][1] g == proc[p][2]
             IN \/ proc[p][4] = 1 \/ u = s.uid
                \/ (IF g = s.gid THEN (s.mode \div 8) % 8 = 6 ELSE s.mode % 8 = 6)
Owns(p, s) == proc[p][3] = 1 \/ proc[p][1] = s.uid
Named(k) == {i \in DOMAIN seg : seg[i].key = k}
(* ---- what the system shows ---- *)
Att(hd, pd, i) == Cardinality({h \in DOMAIN hd : hd[h][2] = i}) + Cardinality({q \in DOMAIN pd : pd[q].at = i})
Shown(sg, hd, pd) == {<<i, sg[i].key, sg[i].size, sg[i].mode, Att(hd, pd, i), sg[i].uid>> : i \in {j \in DOMAIN sg : sg[j].key # 0 \/ Att(hd, pd, j) > 0}}
Seen == {Ev.segs[k] : k \in 1..Len(Ev.segs)}
Shows == Seen = Shown(seg', hand', pend')
(* those in the middle of an attach may have seen what was there in the meantime *)
Meanwhile(pd) == [q \in DOMAIN pd |-> LET k == NameKey(pd[q].name)
                                          now == {i \in DOMAIN seg' : seg'[i].key = k}
                                      IN [pd[q] EXCEPT !.saw = @ \cup now, !.mix = @ \/ now # Named(k)]]
NoPend == pend' = pend

Reset == /\ Is("reset") /\ proc' = Ev.procs /\ seg' = << >> /\ hand' = << >> /\ pend' = << >> /\ Ev.segs = << >>
(* ---- attach: kind any, exist, logged; size 0: any size; min # 0 : may be as small as this ---- *)
Fits(s, e) == May(e.p, s) /\ s.hdr = "ok" /\ s.size >= e.size /\ (e.kind = "logged" => s.log)
Refused == UNCHANGED <<seg, hand>> /\ Ev.h = 0
Attach ==
  LET k == NameKey(Ev.name)
      old == Named(k)
      size == IF Ev.size > 0 THEN Ev.size ELSE DEFAULTSIZE
  IN /\ Is("attach") /\ Ev.p \notin DOMAIN pend /\ proc' = proc
     /\ IF old # {}
        THEN LET i == CHOOSE x \in old : TRUE
                 s == seg[i]
                 ok == Fits(s, Ev)
             IN IF ok THEN Ev.h # 0 /\ Ev.id = i /\ Ev.dbsize = s.size /\ Ev.mode = s.mode /\ Ev.uid = s.uid /\ Ev.gid = s.gid
                           /\ hand' = Put(hand, Ev.h, <<Ev.p, i>>) /\ seg' = seg
                ELSE Refused
        ELSE IF Ev.kind = "exist" THEN Refused
        ELSE \/ /\ size > Ev.hdr /\ Ev.h # 0 /\ Ev.id \notin DOMAIN seg
                /\ \/ Ev.dbsize = size
                   \/ Ev.huge = 1 /\ Ev.dbsize = Ev.size          \* more was asked for than there can be
                /\ hand' = Put(hand, Ev.h, <<Ev.p, Ev.id>>)
                /\ seg' = Put(seg, Ev.id, [key |-> k, size |-> Ev.dbsize, mode |-> Mode(Ev.perm), uid |-> proc[Ev.p][1], gid |-> proc[Ev.p][2],
                                           log |-> (Ev.kind = "logged"), hdr |-> "ok", data |-> << >>])
                /\ (Ev.kind = "logged" => Ev.jm = Mode(Ev.perm))          \* the journal may be read and written by the same people
                /\ Ev.mode = Mode(Ev.perm) /\ Ev.uid = proc[Ev.p][1] /\ Ev.gid = proc[Ev.p][2]
             \/ size < 1000000 /\ Refused
     /\ pend' = Meanwhile(pend) /\ Shows
(* ---- an attach that is stopped half way, and the rest of it (another `attach` event of that process) ---- *)
Start ==
  LET k == NameKey(Ev.name)
      size == IF Ev.size > 0 THEN Ev.size ELSE DEFAULTSIZE
      new == {x \in Seen : x[1] \notin DOMAIN seg}
      P(id, at) == [name |-> Ev.name, made |-> id, at |-> at, mix |-> FALSE, saw |-> Named(k) \cup (IF id = 0 THEN {} ELSE {id})]
  IN /\ Is("start") /\ Ev.p \notin DOMAIN pend /\ UNCHANGED <<proc, hand>>
     /\ IF new = {}
        THEN seg' = seg /\ \E at \in {0} \cup Named(k) : pend' = Put(pend, Ev.p, P(0, at))
        ELSE LET x == CHOOSE y \in new : TRUE IN
             /\ Named(k) = {} /\ Ev.kind # "exist" /\ size > Ev.hdr
             /\ \E at \in {0, x[1]} : pend' = Put(pend, Ev.p, P(x[1], at))
             /\ \E w \in {"unborn", "ok"} : \E lg \in {FALSE, Ev.kind = "logged"} :
                   seg' = Put(seg, x[1], [key |-> k, size |-> size, mode |-> Mode(Ev.perm), uid |-> proc[Ev.p][1], gid |-> proc[Ev.p][2], log |-> lg, hdr |-> w, data |-> << >>])
     /\ Shows
Finish ==
  LET k == NameKey(Ev.name)
      q == pend[Ev.p]
  IN /\ Is("attach") /\ Ev.p \in DOMAIN pend /\ proc' = proc
     /\ pend' = Less(pend, {Ev.p})
     /\ \/ /\ Ev.h # 0 /\ q.made # 0 /\ Ev.id = q.made /\ Ev.dbsize = seg[Ev.id].size
           /\ seg' = [seg EXCEPT ![Ev.id].hdr = "ok", ![Ev.id].log = (Ev.kind = "logged")]
           /\ hand' = Put(hand, Ev.h, <<Ev.p, Ev.id>>)
        \/ /\ Ev.h # 0 /\ q.made = 0 /\ Ev.id \in q.saw /\ Fits(seg[Ev.id], Ev) /\ Ev.dbsize = seg[Ev.id].size
           /\ seg' = seg /\ hand' = Put(hand, Ev.h, <<Ev.p, Ev.id>>)
        \/ /\ Ev.h # 0 /\ q.made = 0 /\ Named(k) = {} /\ Ev.kind # "exist" /\ Ev.id \notin DOMAIN seg
           /\ LET size == IF Ev.size > 0 THEN Ev.size ELSE DEFAULTSIZE IN
              /\ Ev.dbsize = size /\ size > Ev.hdr
              /\ seg' = Put(seg, Ev.id, [key |-> k, size |-> size, mode |-> Mode(Ev.perm), uid |-> proc[Ev.p][1], gid |-> proc[Ev.p][2], log |-> (Ev.kind = "logged"), hdr |-> "ok", data |-> << >>])
           /\ hand' = Put(hand, Ev.h, <<Ev.p, Ev.id>>)
        \/ Ev.h = 0 /\ q.made # 0 /\ q.at = 0 /\ seg[q.made].key = 0 /\ UNCHANGED <<seg, hand>>     \* deleted before it was attached
        \/ /\ Ev.h = 0 /\ q.made = 0 /\ UNCHANGED <<seg, hand>>
           /\ q.mix \/ (IF Named(k) = {} THEN Ev.kind = "exist" ELSE \A i \in Named(k) : ~ Fits(seg[i], Ev))
     /\ Shows
Detach == /\ Is("detach") /\ Ev.h \in DOMAIN hand /\ Ev.r = 0 /\ hand' = Less(hand, {Ev.h}) /\ UNCHANGED <<proc, seg, pend>> /\ Shows
Delete == LET old == Named(NameKey(Ev.name))
          IN /\ Is("delete") /\ UNCHANGED <<proc, hand>>
             /\ IF old # {} /\ Owns(Ev.p, seg[CHOOSE x \in old : TRUE]) /\ May(Ev.p, seg[CHOOSE x \in old : TRUE])
                THEN Ev.r = 0 /\ seg' = [seg EXCEPT ![CHOOSE x \in old : TRUE].key = 0]
                ELSE Ev.r # 0 /\ seg' = seg
             /\ pend' = Meanwhile(pend) /\ Shows
(* a process ends, detached or not; another with the same rights takes its number *)
Exit == /\ Is("exit") /\ hand' = Less(hand, {h \in DOMAIN hand : hand[h][1] = Ev.p}) /\ pend' = Less(pend, {Ev.p}) /\ UNCHANGED <<proc, seg>> /\ Shows
(* the header of the segment becomes that of another version, feature set, byte order, no header, unfinished *)
Poke == /\ Is("poke") /\ Ev.h \in DOMAIN hand /\ seg' = [seg EXCEPT ![hand[Ev.h][2]].hdr = Ev.what] /\ UNCHANGED <<proc, hand, pend>> /\ Shows
Logging == /\ Is("logging") /\ Ev.h \in DOMAIN hand
           /\ (Ev.r = 0 /\ Ev.on = 1 => Ev.jm = seg[hand[Ev.h][2]].mode)
           /\ (Ev.r = 0) = (seg[hand[Ev.h][2]].log # (Ev.on = 1))
           /\ seg' = [seg EXCEPT ![hand[Ev.h][2]].log = (Ev.on = 1)] /\ UNCHANGED <<proc, hand, pend>> /\ Shows
(* ---- contents ---- *)
Data(h) == seg[hand[h][2]].data
Upd(h, d) == seg' = [seg EXCEPT ![hand[h][2]].data = d] /\ UNCHANGED <<proc, hand, pend>>
Add == Is("add") /\ Ev.h \in DOMAIN hand /\ Ev.was = Data(Ev.h) /\ Upd(Ev.h, Append(Data(Ev.h), Ev.v))
Change == Is("set") /\ Ev.h \in DOMAIN hand /\ Ev.was = Data(Ev.h) /\ Upd(Ev.h, [Data(Ev.h) EXCEPT ![Ev.k] = Ev.v])
Remove == Is("del") /\ Ev.h \in DOMAIN hand /\ Ev.was = Data(Ev.h) /\ Upd(Ev.h, SubSeq(Data(Ev.h), 1, Len(Data(Ev.h)) - 1))
See == Is("see") /\ Ev.h \in DOMAIN hand /\ Ev.was = Data(Ev.h) /\ UNCHANGED <<proc, seg, hand, pend>>
(* ---- several processes attach at the same time, without and with the name in use ---- *)
(* each gets the one database or nothing; someone gets it; what everyone got was complete: `use` counts those who could use it at once *)
Race == LET k == NameKey(Ev.name)
            got == {j \in 1..Len(Ev.who) : Ev.who[j][2] # 0}
        IN /\ Is("race") /\ UNCHANGED <<proc, pend>> /\ got # {}
           /\ \A j \in got : Ev.who[j][4] = 1
           /\ \A i, j \in got : Ev.who[i][3] = Ev.who[j][3]
           /\ LET id == Ev.who[CHOOSE j \in got : TRUE][3]
                  hs == {Ev.who[j][2] : j \in got}
              IN /\ IF Named(k) = {}
                    THEN /\ id \notin DOMAIN seg
                         /\ seg' = Put(seg, id, [key |-> k, size |-> Ev.size, mode |-> Mode(0), uid |-> 0, gid |-> 0, log |-> FALSE, hdr |-> "ok", data |-> << >>])
                    ELSE id \in Named(k) /\ Cardinality(got) = Len(Ev.who) /\ seg' = seg
                 /\ hand' = [h \in DOMAIN hand \cup hs |-> IF h \in DOMAIN hand THEN hand[h] ELSE <<Ev.who[CHOOSE j \in got : Ev.who[j][2] = h][1], id>>]
           /\ Shows
(* from the moment a database can be attached to, it is complete: nothing of its structure changes while its creator finishes *)
Born == Is("born") /\ Ev.same = 1 /\ UNCHANGED <<proc, seg, hand, pend>>
SInit == l = 1 /\ proc = << >> /\ seg = << >> /\ hand = << >> /\ pend = << >>
SNext == Reset \/ Attach \/ Start \/ Finish \/ Detach \/ Delete \/ Exit \/ Poke \/ Logging \/ Add \/ Change \/ Remove \/ See \/ Race \/ Born
SSpec == SInit /\ [][SNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
