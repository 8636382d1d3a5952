SPECIFICATION Spec
INVARIANTS Shifted Mirrored Scaled AxesSwapped OrderIrrelevant KthRight CopiesRight Monotone
