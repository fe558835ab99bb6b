---- MODULE MCBoltClient ----
EXTENDS BoltClient, IOUtils
ModelIn == JsonDeserialize(IOEnv.MODEL)
KindV == ModelIn.kinds
AddrV == ModelIn.addrs
FormsV == {ModelIn.forms[i] : i \in 1..Len(ModelIn.forms)}
====
