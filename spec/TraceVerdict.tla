---------------------------- MODULE TraceVerdict ----------------------------
(* Shared by every trace specification: reading the recorded trace, printing *)
(* one line per failing clause, and accepting only completely read traces.   *)
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC
LOCAL INSTANCE FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, case, op, bad) ==
   \A c \in bad : PrintT("@@BAD " \o ToString(l) \o " " \o case \o " " \o op \o " " \o c)

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
