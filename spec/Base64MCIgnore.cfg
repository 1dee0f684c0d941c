SPECIFICATION Spec
CONSTANTS
  Chars = {65, 103, 61, 32, 33}
  Octets = {0, 77, 255}
  MaxText = 6
  MaxData = 0
  Ignore = TRUE
INVARIANTS AutomatonIsDefinition SizeIsDefinition IncrementalIsWhole OctetsOnly Canonical RoundTrip
CHECK_DEADLOCK FALSE
