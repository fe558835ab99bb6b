---- MODULE MCMesh ----
EXTENDS Mesh, IOUtils
ModelIn == JsonDeserialize(IOEnv.MODEL)
OpsV == ModelIn.ops
ThreadV == ModelIn.threads
====
