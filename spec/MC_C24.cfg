SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT StartsFine
INVARIANT ComputedIsSound
INVARIANT ShorterIsNoBetter
PROPERTY Sticky
