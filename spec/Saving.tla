------------------------------- MODULE Saving --------------------------------
(* Metafiles on a device that may fail. The file at the path is absent, holds   *)
(* metafile m, or holds what a failed save left behind, which is not specified. *)
(* A save on a device that takes only k bytes (k < 0: any number) succeeds      *)
(* exactly if they all fit; a metafile that cannot be described raises an error *)
(* before the file is touched. A load gives what is there, completely, or       *)
(* raises an error: never a part of it.                                         *)
EXTENDS Integers, Sequences
CONSTANT Size(_)                       \* bytes of metafile m as written
Absent == 0
Partial == -1
Fits(m, k) == k < 0 \/ Size(m) <= k
Ok(x) == [ok |-> TRUE, what |-> x]
Raise == [ok |-> FALSE, what |-> 0]
Any == [ok |-> FALSE, what |-> -1]     \* after a failed save
\* the file after the call, and what the caller sees
Save(f, m, k) == IF Fits(m, k) THEN <<m, Ok(m)>> ELSE <<Partial, Raise>>
SaveUnwritable(f) == <<f, Raise>>
\* to a place where no file can be (a directory, inside a missing directory, a full device)
SaveNowhere(f) == <<f, Raise>>
LoadNowhere(f) == <<f, Raise>>
\* the device fails to give bytes from position k on (k < 0: does not fail)
Load(f, k) == <<f, CASE f = Absent -> Raise [] f = Partial -> Any [] OTHER -> IF k < 0 \/ k >= Size(f) THEN Ok(f) ELSE Raise>>
Step(f, op) == CASE op[1] = "save" -> Save(f, op[2], op[3])
                 [] op[1] = "bad" -> SaveUnwritable(f)
                 [] op[1] = "saveat" -> SaveNowhere(f)
                 [] op[1] = "loadat" -> LoadNowhere(f)
                 [] op[1] = "load" -> Load(f, op[2])
                 [] op[1] = "remove" -> <<Absent, Ok(0)>>
\* a stream that takes k bytes: whether it is still good afterwards, and how many bytes of m it holds at most
Stream(m, k) == [good |-> Fits(m, k), most |-> IF Fits(m, k) THEN Size(m) ELSE k]
=============================================================================
