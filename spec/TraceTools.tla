------------------------------ MODULE TraceTools ------------------------------
(* The trace to be validated (environment variable TRACE) and the property   *)
(* that is being checked (PROP, or ALL).                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
AllProps == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15",
             "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28"}
PropsFromEnv == IF IOEnv.PROP = "ALL" THEN AllProps ELSE {IOEnv.PROP}
\* Every trace specification consumes one event per step: the depth of the search tells how far it got
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
