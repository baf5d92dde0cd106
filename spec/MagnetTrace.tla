----------------------------- MODULE MagnetTrace -----------------------------
(* texts written by the real code, each with the link it was written for       *)
EXTENDS Magnet, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in DOMAIN Log
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Link(m) == [m EXCEPT !.kt = ToSet(@)]
Written == Says(Log[i].t, Link(Log[i].l)) /\ (Log[i].urn => UrnReadable(Log[i].t, Link(Log[i].l)))
Report == Written \/ PrintT("BAD " \o ToJson(i))
==============================================================================
