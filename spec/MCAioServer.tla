---- MODULE MCAioServer ----
EXTENDS AioServer, IOUtils
ModelIn == JsonDeserialize(IOEnv.MODEL)
KindV == ModelIn.kinds
ConnV == ModelIn.conns
====
