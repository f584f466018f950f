--------------------------------- MODULE FnShm --------------------------------
(***************************************************************************)
(* The logging system with its queues in shared memory, when the process    *)
(* dies at any point and a new one starts the same configuration (C12).      *)
(*                                                                          *)
(* An entry is one log statement on one channel (as in FnLog). What is in   *)
(* the queues survives a crash: completed entries are delivered by the next  *)
(* session, before its own; unfinished ones appear at most as marked lines.  *)
(* An entry whose delivery was under way (or not yet acknowledged) is        *)
(* delivered again.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FnFilter

CONSTANTS Cap, Config(_)

VARIABLES
    tr,     \* which configuration (never changes)
    up,     \* "off", "busy" (starting or stopping), "on"
    sess,   \* number of processes so far
    ph,     \* entry -> new, begun, refused, held, ready, written, torn, dropped
    que,    \* channel -> sequence of entries in the shared memory
    done,   \* channel -> outputs that already got the oldest entry of the queue
    out,    \* output -> sequence of lines: k a line of entry k, -k a line of the unfinished entry k, marked as recovered
    lossy,  \* entries in progress while the logger was not surely running
    ret     \* entries whose statement returned

cfg == Config(tr)
shmvars == <<up, sess, ph, que, done, out, lossy, ret>>
Chans == DOMAIN cfg.chan
Ents  == DOMAIN cfg.ent
Outs  == DOMAIN cfg.outs
ChanOf(k) == cfg.ent[k].c
OutsOf(c) == {o \in Outs : cfg.outs[o][1] = c}
Accepts(k) == ChannelAccepts(cfg.set[ChanOf(k)], cfg.ent[k])
Takes(k) == {o \in OutsOf(ChanOf(k)) : DeviceAdmits(cfg.set[ChanOf(k)].devs[cfg.outs[o][2]], cfg.ent[k])}
Range(s) == {s[i] : i \in DOMAIN s}

ShmInit(c) ==
    /\ up = "off" /\ sess = 1
    /\ ph = [k \in DOMAIN c.ent |-> "new"]
    /\ que = [q \in DOMAIN c.chan |-> <<>>]
    /\ done = [q \in DOMAIN c.chan |-> {}]
    /\ out = [o \in DOMAIN c.outs |-> <<>>]
    /\ lossy = {} /\ ret = {}

Begin(k) ==
    /\ ph[k] = "new" /\ ph' = [ph EXCEPT ![k] = "begun"]
    /\ lossy' = IF up = "on" THEN lossy ELSE lossy \cup {k}
    /\ UNCHANGED <<up, sess, que, done, out, ret>>
Refuse(k) ==
    /\ ph[k] = "begun" /\ (~Accepts(k) \/ k \in lossy)
    /\ ph' = [ph EXCEPT ![k] = "refused"]
    /\ UNCHANGED <<up, sess, que, done, out, lossy, ret>>
Admit(k) ==
    /\ ph[k] = "begun" /\ Accepts(k) /\ up # "off" /\ Len(que[ChanOf(k)]) < Cap
    /\ ph' = [ph EXCEPT ![k] = "held"]
    /\ que' = [que EXCEPT ![ChanOf(k)] = Append(@, k)]
    /\ UNCHANGED <<up, sess, done, out, lossy, ret>>
Complete(k) ==
    /\ ph[k] = "held" /\ ph' = [ph EXCEPT ![k] = "ready"]
    /\ UNCHANGED <<up, sess, que, done, out, lossy, ret>>
(* A statement returns when its entry is complete, refused, or (around a stop) given up. *)
Return(k) ==
    /\ k \notin ret /\ ret' = ret \cup {k}
    /\ ph[k] \in {"refused", "ready", "written", "dropped"} \/ k \in lossy
    /\ UNCHANGED <<up, sess, ph, que, done, out, lossy>>

(* The writer hands the oldest entry to its outputs, one after the other, then acknowledges it. *)
Write(c, o) ==
    /\ up # "off" /\ que[c] # <<>>
    /\ LET k == Head(que[c]) IN
        /\ o \notin done[c]
        /\ \/ ph[k] = "ready" /\ o \in Takes(k) /\ out' = [out EXCEPT ![o] = Append(@, k)]
           \/ ph[k] = "torn" /\ o \in OutsOf(c) /\ out' = [out EXCEPT ![o] = Append(@, -k)]
    /\ done' = [done EXCEPT ![c] = @ \cup {o}]
    /\ UNCHANGED <<up, sess, ph, que, lossy, ret>>
Release(c) ==
    /\ up # "off" /\ que[c] # <<>>
    /\ LET k == Head(que[c]) IN
        \/ ph[k] = "ready" /\ Takes(k) \subseteq done[c] /\ ph' = [ph EXCEPT ![k] = "written"]
        \/ ph[k] = "torn" /\ ph' = [ph EXCEPT ![k] = "dropped"]
    /\ que' = [que EXCEPT ![c] = Tail(@)]
    /\ done' = [done EXCEPT ![c] = {}]
    /\ UNCHANGED <<up, sess, out, lossy, ret>>

Crash ==
    /\ up' = "off" /\ sess' = sess + 1
    /\ ph' = [k \in DOMAIN ph |-> CASE ph[k] = "begun" -> "dropped" [] ph[k] = "held" -> "torn" [] OTHER -> ph[k]]
    /\ done' = [c \in DOMAIN done |-> {}]
    /\ UNCHANGED <<que, out, lossy, ret>>

Open == {k \in Ents : ph[k] \in {"begun", "held", "ready"} /\ k \notin ret}
StartBegin == up = "off" /\ up' = "busy" /\ lossy' = lossy \cup Open /\ UNCHANGED <<sess, ph, que, done, out, ret>>
StartEnd == up = "busy" /\ up' = "on" /\ UNCHANGED <<sess, ph, que, done, out, lossy, ret>>
StopBegin == up = "on" /\ up' = "busy" /\ lossy' = lossy \cup Open /\ UNCHANGED <<sess, ph, que, done, out, ret>>
(* Everything complete is written; nothing stays in the queues. *)
StopEnd ==
    /\ up = "busy" /\ up' = "off"
    /\ \A c \in Chans : \A i \in DOMAIN que[c] : ph[que[c][i]] = "held"
    /\ ph' = [k \in DOMAIN ph |-> IF ph[k] = "held" THEN "dropped" ELSE ph[k]]
    /\ que' = [c \in DOMAIN que |-> <<>>]
    /\ done' = [c \in DOMAIN done |-> {}]
    /\ UNCHANGED <<sess, out, lossy, ret>>
(* A stop also delivers what is complete behind an unfinished entry: it takes the unfinished one away first. *)
GiveUp(k) ==
    /\ up = "busy" /\ ph[k] = "held" /\ k \in lossy
    /\ ph' = [ph EXCEPT ![k] = "dropped"]
    /\ que' = [que EXCEPT ![ChanOf(k)] = SelectSeq(@, LAMBDA x : x # k)]
    /\ UNCHANGED <<up, sess, done, out, lossy, ret>>

-----------------------------------------------------------------------------
CountIn(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Survives == \A k \in Ents : ph[k] \in {"ready", "torn"} => k \in Range(que[ChanOf(k)])
NothingLost == \A k \in Ents : (k \in ret /\ k \notin lossy) => ph[k] \in {"refused", "ready", "written"}
WrittenEverywhere == \A k \in Ents : ph[k] = "written" => \A o \in Takes(k) : k \in Range(out[o])
OnlyTaken == \A o \in Outs : \A i \in DOMAIN out[o] : out[o][i] > 0 => o \in Takes(out[o][i]) /\ Accepts(out[o][i])
OnlyUnfinishedMarked == \A o \in Outs : \A i \in DOMAIN out[o] : out[o][i] < 0 => ph[-out[o][i]] \in {"torn", "dropped"}
First(s, k) == CHOOSE i \in DOMAIN s : s[i] = k /\ \A j \in 1..(i - 1) : s[j] # k
CommonOrder == \A o, p \in Outs : cfg.outs[o][1] = cfg.outs[p][1] =>
    \A k, j \in Range(out[o]) \cap Range(out[p]) : (First(out[o], k) < First(out[o], j)) = (First(out[p], k) < First(out[p], j))
=============================================================================
