SPECIFICATION Spec
CONSTANTS MaxNodes = 4 Other = TRUE
VIEW View
INVARIANTS CwdIsDirectory TreeShape FirstHit AbsoluteSame ResolvedIsNoLink ListedIsThere MovedKeeps
CHECK_DEADLOCK FALSE
