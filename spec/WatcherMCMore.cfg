SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 Kinds = {"StartEvent", "IterationEvent", "AbortEvent", "ProgressEvent"}
INVARIANTS WritesOwn LivesWhileWatched Silent
PROPERTIES Addition OnlyEvents
CHECK_DEADLOCK FALSE
