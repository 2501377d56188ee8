SPECIFICATION Spec
INVARIANTS Known OnlyWhenAsked OnlyWhenWritten TimeIsTold
PROPERTIES Finer Asking
