----------------------------- MODULE BitSetsMC -----------------------------
EXTENDS BitSets, CSV, Json, IOUtils
(* every transition of the model as one operation script for the code *)
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.GEN)
=============================================================================
