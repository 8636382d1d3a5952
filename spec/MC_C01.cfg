SPECIFICATION Spec
INVARIANTS Bounds ZeroIffConstant MaxIffUniform JointAboveParts JointBelowSum LocalMean Replication
