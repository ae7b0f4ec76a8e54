SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 3
  Extra = 2
INVARIANT Unwatched
INVARIANT OnlyAdds
INVARIANT InOrder
INVARIANT OnceEach
INVARIANT OthersSilent
INVARIANT ErrorsArrive
INVARIANT WarningsArrive
INVARIANT QuietIsQuiet
INVARIANT Complete
INVARIANT Alone
INVARIANT RoundTrip
INVARIANT Nested
INVARIANT Emit
