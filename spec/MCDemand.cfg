SPECIFICATION Spec
INVARIANTS Complete StrictMeansAll RequiredMeansWritten NothingDemanded
PROPERTY Monotone
