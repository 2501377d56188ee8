SPECIFICATION Spec
INVARIANT SoundOnce
