SPECIFICATION Spec
INVARIANTS SelfCounted JointInMarginals SymmetricBox Shifted Mirrored Reordered Wide CopiesRight
