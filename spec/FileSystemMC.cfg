SPECIFICATION Spec
CONSTANTS MaxNodes = 4 Other = FALSE
VIEW View
INVARIANTS CwdIsDirectory TreeShape FirstHit AbsoluteSame ResolvedIsNoLink ListedIsThere MovedKeeps
CHECK_DEADLOCK FALSE
