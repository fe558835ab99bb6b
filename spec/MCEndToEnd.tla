----------------------------- MODULE MCEndToEnd -----------------------------
EXTENDS EndToEnd, IOUtils
M == JsonDeserialize(IOEnv.MODEL)
KindV == M.kind
ClientOfV == M.client
KeyOfV == M.key
=============================================================================
