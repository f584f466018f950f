------------------------------- MODULE FnFilter -------------------------------
(* Which channels and devices admit a log (BlockInput / DispatchLog /          *)
(* EnterProcOutVirtualDevice). A filter is a record                            *)
(*   [pri, cb, cn, cm, ib, in, im]                                             *)
(* minimal priority, category range [cb, cb+cn) (no restriction if cn = 0),    *)
(* category mask as a sequence of admitted bits (no restriction if empty),     *)
(* and the same for the identify. A log is a record with pri, ca, idn.         *)
EXTENDS Naturals, Integers, Sequences

InRange(b, n, v) == n <= 0 \/ (v >= b /\ v < b + n)
InMask(m, v)     == m = <<>> \/ \E i \in DOMAIN m : m[i] = v

FilterAdmits(f, log) ==
    /\ log.pri >= f.pri
    /\ InRange(f.cb, f.cn, log.ca) /\ InRange(f.ib, f.in, log.idn)
    /\ InMask(f.cm, log.ca) /\ InMask(f.im, log.idn)

(* A device takes logs of its channel iff it is enabled, is not an input      *)
(* device and its filter admits the log.                                       *)
DeviceAdmits(d, log) == d.able /\ ~d.inp /\ FilterAdmits(d.flt, log)

(* A channel accepts a log iff its own filter and at least one device do.      *)
ChannelAccepts(c, log) ==
    /\ FilterAdmits(c.flt, log)
    /\ \E i \in DOMAIN c.devs : DeviceAdmits(c.devs[i], log)
===============================================================================
