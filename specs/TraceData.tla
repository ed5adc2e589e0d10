----------------------------- MODULE TraceData -----------------------------
(* The recorded scenarios, one JSON object [sid, init, ev] per line.          *)
EXTENDS Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
=============================================================================
