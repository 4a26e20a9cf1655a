------------------------------- MODULE Emit ---------------------------------
\* Output channel: one JSON document per case, in a file of its own (workers run concurrently).
EXTENDS TLC, Sequences, Json, CSV, IOUtils
Write(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.SDT_OUT \o "/" \o ToString(rec.id))
EnvInt(name) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE 0
=============================================================================
