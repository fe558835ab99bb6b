---- MODULE MCSockServer ----
EXTENDS SockServer, IOUtils
ModelIn == JsonDeserialize(IOEnv.MODEL)
KindV == ModelIn.kinds
ConnV == ModelIn.conns
====
