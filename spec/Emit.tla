-------------------------------- MODULE Emit -------------------------------
(* Writes one JSON line per generated behaviour, for the conformance driver. *)
(* The line is bound first, so that it is made outside the lock under which   *)
(* TLC writes it.                                                            *)
EXTENDS TLC, Sequences, Json, IOUtils
CONSTANT OutFile
Emit(v) == \E line \in {ToJson(v) \o "\n"} :
             Serialize(line, OutFile,
               [format |-> "TXT", charset |-> "UTF-8",
                openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
