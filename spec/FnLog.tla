--------------------------------- MODULE FnLog --------------------------------
(***************************************************************************)
(* The logging system as its users see it: log statements, channels with   *)
(* their queue, outputs, filter settings and the life cycle of loggers.     *)
(*                                                                          *)
(* An entry is one line that is to appear on one channel: a log statement,  *)
(* or a log transmitted to another channel by the virtual device hook. Life *)
(* of an entry:                                                             *)
(*                                                                          *)
(*   new -> begun -> admitted -> ready -> written                           *)
(*               \-> refused   \----\-> dropped                             *)
(*                                                                          *)
(* Admit is the point where an entry of an asynchronous channel gets its    *)
(* place in the one order of the channel, Complete the point where its      *)
(* content is final, Deliver hands it to every output that takes it, Show   *)
(* makes written lines visible to other processes (flush). A synchronous    *)
(* channel writes in the logging threads (WriteSync), its outputs have no   *)
(* common order.                                                            *)
(*                                                                          *)
(* Sent datagrams are the visible lines of their output. A device that      *)
(* receives datagrams is a channel of its own whose entries are the lines   *)
(* they bring, whose only output is that of the device, and whose settings  *)
(* say whether it listens (able) and where (category).                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FnFilter

CONSTANTS
    Cap,        \* a queue holds at most Cap entries
    Config(_)   \* the configurations to consider

VARIABLES
    tr,     \* which configuration (never changes)
    life,   \* logger -> [n: successful starts minus stops, busy: number of successful life cycle calls in progress]
    ph,     \* entry -> phase
    alt,    \* entry -> the settings it may be judged by
    eff,    \* channel -> the settings that may be in effect now
    que,    \* channel -> sequence of entries, admitted but not yet delivered
    out,    \* output -> sequence of entries handed to the device
    vis,    \* output -> number of lines of out that another process can read
    could,  \* entries that were in progress at a time at which their logger may have been running
    lossy   \* entries that were in progress at a time at which their logger may have been not running

cfg == Config(tr)   \* chan[c] = [L, sync], ver[v][c] = [flt, devs]: the possible settings,
                    \* outs[o] = <<c, d>>, ent[k] = [c, pri, ca, idn]
sysvars == <<life, ph, alt, eff, que, out, vis, could, lossy>>

Chans       == DOMAIN cfg.chan
Ents        == DOMAIN cfg.ent
Outs        == DOMAIN cfg.outs
ChanOf(k)   == cfg.ent[k].c
LoggerOf(k) == cfg.chan[ChanOf(k)].L
Sync(k)     == cfg.chan[ChanOf(k)].sync
OutsOf(c)   == {o \in Outs : cfg.outs[o][1] = c}

AcceptsV(v, k)  == ChannelAccepts(cfg.ver[v][ChanOf(k)], cfg.ent[k])
TakesV(v, o, k) == DeviceAdmits(cfg.ver[v][cfg.outs[o][1]].devs[cfg.outs[o][2]], cfg.ent[k])
MayAccept(k)  == \E v \in alt[k] : AcceptsV(v, k)
MustAccept(k) == \A v \in alt[k] : AcceptsV(v, k)
MayTake(k)    == {o \in OutsOf(ChanOf(k)) : \E v \in alt[k] : TakesV(v, o, k)}
MustTake(k)   == {o \in OutsOf(ChanOf(k)) : \A v \in alt[k] : TakesV(v, o, k)}

SureOn(L)   == life[L].n = 1 /\ life[L].busy = 0
SureOff(L)  == life[L].n = 0 /\ life[L].busy = 0
Live(k)     == ph[k] \in {"begun", "admitted", "ready"}

SysInit(c, loggers, v0) ==
    /\ life = [L \in loggers |-> [n |-> 0, busy |-> 0]]
    /\ ph = [k \in DOMAIN c.ent |-> "new"]
    /\ alt = [k \in DOMAIN c.ent |-> {}]
    /\ eff = [q \in DOMAIN c.chan |-> {v0}]
    /\ que = [q \in DOMAIN c.chan |-> <<>>]
    /\ out = [o \in DOMAIN c.outs |-> <<>>]
    /\ vis = [o \in DOMAIN c.outs |-> 0]
    /\ could = {}
    /\ lossy = {}

Begin(k) ==
    /\ ph[k] = "new"
    /\ ph' = [ph EXCEPT ![k] = "begun"]
    /\ alt' = [alt EXCEPT ![k] = eff[ChanOf(k)]]
    /\ lossy' = IF SureOn(LoggerOf(k)) THEN lossy ELSE lossy \cup {k}
    /\ could' = IF SureOff(LoggerOf(k)) THEN could ELSE could \cup {k}
    /\ UNCHANGED <<life, eff, que, out, vis>>

(* An entry is refused iff a filter says so or its logger is not running.     *)
MayRefuse(k) == ~MustAccept(k) \/ k \in lossy
Refuse(k) ==
    /\ ph[k] = "begun" /\ MayRefuse(k)
    /\ ph' = [ph EXCEPT ![k] = "refused"]
    /\ UNCHANGED <<life, alt, eff, que, out, vis, could, lossy>>

MayAdmit(k) == MayAccept(k) /\ k \in could /\ ~SureOff(LoggerOf(k))
Admit(k) ==
    /\ ph[k] = "begun" /\ MayAdmit(k)
    /\ Sync(k) \/ Len(que[ChanOf(k)]) < Cap
    /\ ph' = [ph EXCEPT ![k] = "admitted"]
    /\ que' = IF Sync(k) THEN que ELSE [que EXCEPT ![ChanOf(k)] = Append(@, k)]
    /\ UNCHANGED <<life, alt, eff, out, vis, could, lossy>>

Complete(k) ==
    /\ ph[k] = "admitted"
    /\ ph' = [ph EXCEPT ![k] = "ready"]
    /\ UNCHANGED <<life, alt, eff, que, out, vis, could, lossy>>

(* An asynchronous channel hands its oldest entry to the outputs S.            *)
Deliver(c, S) ==
    /\ que[c] # <<>> /\ ph[Head(que[c])] = "ready"
    /\ LET k == Head(que[c]) IN
        /\ MustTake(k) \subseteq S /\ S \subseteq MayTake(k)
        /\ ph' = [ph EXCEPT ![k] = "written"]
        /\ out' = [o \in DOMAIN out |-> IF o \in S THEN Append(out[o], k) ELSE out[o]]
    /\ que' = [que EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<life, alt, eff, vis, could, lossy>>

Range(s) == {s[i] : i \in DOMAIN s}
(* A synchronous channel writes the line to one of its outputs.               *)
WriteSync(o, k) ==
    /\ Sync(k) /\ ph[k] = "ready" /\ o \in MayTake(k) /\ k \notin Range(out[o])
    /\ out' = [out EXCEPT ![o] = Append(@, k)]
    /\ UNCHANGED <<life, ph, alt, eff, que, vis, could, lossy>>
SyncDone(k) == \A o \in MustTake(k) : k \in Range(out[o])
FinishSync(k) ==
    /\ Sync(k) /\ ph[k] = "ready" /\ SyncDone(k)
    /\ ph' = [ph EXCEPT ![k] = "written"]
    /\ UNCHANGED <<life, alt, eff, que, out, vis, could, lossy>>

(* Only an entry in progress around a stop is ever dropped.                    *)
Drop(k) ==
    /\ Live(k) /\ k \in lossy
    /\ ph' = [ph EXCEPT ![k] = "dropped"]
    /\ que' = [que EXCEPT ![ChanOf(k)] = SelectSeq(@, LAMBDA x : x # k)]
    /\ UNCHANGED <<life, alt, eff, out, vis, could, lossy>>

Show(o) ==
    /\ vis[o] < Len(out[o])
    /\ \E n \in (vis[o] + 1)..Len(out[o]) : vis' = [vis EXCEPT ![o] = n]
    /\ UNCHANGED <<life, ph, alt, eff, que, out, could, lossy>>

(* Settings change: first both may be in effect, then only the new ones.       *)
Offer(C, v) ==
    /\ eff' = [c \in DOMAIN eff |-> IF c \in C THEN eff[c] \cup {v} ELSE eff[c]]
    /\ alt' = [k \in DOMAIN alt |-> IF Live(k) /\ ChanOf(k) \in C THEN alt[k] \cup {v} ELSE alt[k]]
    /\ UNCHANGED <<life, ph, que, out, vis, could, lossy>>
Settle(C, v) ==
    /\ eff' = [c \in DOMAIN eff |-> IF c \in C THEN {v} ELSE eff[c]]
    /\ UNCHANGED <<life, ph, alt, que, out, vis, could, lossy>>

(* Life cycle. An entry in progress while the logger is not surely running    *)
(* may be refused or dropped.                                                  *)
LifeBegin(L) ==
    /\ life' = [life EXCEPT ![L].busy = @ + 1]
    /\ LET mine == {k \in DOMAIN ph : Live(k) /\ LoggerOf(k) = L} IN
        /\ lossy' = lossy \cup mine
        /\ could' = could \cup mine
    /\ UNCHANGED <<ph, alt, eff, que, out, vis>>

StartEnd(L) ==
    /\ life[L].busy > 0
    /\ life' = [life EXCEPT ![L] = [n |-> @.n + 1, busy |-> @.busy - 1]]
    /\ UNCHANGED <<ph, alt, eff, que, out, vis, could, lossy>>

RECURSIVE Sweep(_, _)
Sweep(s, o) == IF s = <<>> THEN <<>>
               ELSE (IF ph[Head(s)] = "ready" /\ o \in MustTake(Head(s)) THEN <<Head(s)>> ELSE <<>>) \o Sweep(Tail(s), o)

(* A stop writes what is ready (also behind an unfinished entry), drops the   *)
(* unfinished rest and closes (flushes) the files.                             *)
StopEnd(L) ==
    /\ life[L].busy > 0
    /\ life' = [life EXCEPT ![L] = [n |-> @.n - 1, busy |-> @.busy - 1]]
    /\ IF life[L].busy = 1
       THEN LET mine == {c \in Chans : cfg.chan[c].L = L}
                swept(o) == IF cfg.outs[o][1] \in mine THEN out[o] \o Sweep(que[cfg.outs[o][1]], o) ELSE out[o] IN
            /\ out' = [o \in DOMAIN out |-> swept(o)]
            /\ vis' = [o \in DOMAIN vis |-> IF cfg.outs[o][1] \in mine /\ ~cfg.chan[cfg.outs[o][1]].sync THEN Len(swept(o)) ELSE vis[o]]
            /\ ph' = [k \in DOMAIN ph |-> IF ChanOf(k) \in mine /\ k \in Range(que[ChanOf(k)])
                                          THEN (IF ph[k] = "ready" THEN "written" ELSE "dropped") ELSE ph[k]]
            /\ que' = [c \in DOMAIN que |-> IF c \in mine THEN <<>> ELSE que[c]]
       ELSE UNCHANGED <<out, vis, ph, que>>
    /\ UNCHANGED <<alt, eff, could, lossy>>

-----------------------------------------------------------------------------
(* The properties, on the model.                                               *)
NoDup(s) == Cardinality(Range(s)) = Len(s)
SubSeqOrder(a, b) == \A i, j \in DOMAIN a : i < j =>   \* the common elements of a and b have the same order
    \A k, l \in DOMAIN b : (a[i] = b[k] /\ a[j] = b[l]) => k < l

AtMostOnce == \A o \in Outs : NoDup(out[o])
OnlyAdmitted == \A o \in Outs : \A i \in DOMAIN out[o] : o \in MayTake(out[o][i]) /\ MayAccept(out[o][i])
CommonOrder == \A o, p \in Outs :
    (cfg.outs[o][1] = cfg.outs[p][1] /\ ~cfg.chan[cfg.outs[o][1]].sync) => SubSeqOrder(out[o], out[p])
WrittenEverywhere == \A k \in Ents : ph[k] = "written" => \A o \in MustTake(k) : k \in Range(out[o])
NothingExtra == \A o \in Outs : \A i \in DOMAIN out[o] : LET k == out[o][i] IN
    ph[k] = "written" \/ (Sync(k) /\ ph[k] \in {"ready", "dropped"})
Bounded == \A c \in Chans : Len(que[c]) <= Cap
OneSession == \A L \in DOMAIN life : life[L].n \in 0..1
NoSilentLoss == \A k \in Ents : ph[k] = "dropped" => k \in lossy
RefusedForAReason == \A k \in Ents : ph[k] = "refused" => MayRefuse(k)
StoppedMeansDrained == \A L \in DOMAIN life : SureOff(L) =>
    \A o \in Outs : (cfg.chan[cfg.outs[o][1]].L = L /\ ~cfg.chan[cfg.outs[o][1]].sync) => vis[o] = Len(out[o]) /\ que[cfg.outs[o][1]] = <<>>
=============================================================================
