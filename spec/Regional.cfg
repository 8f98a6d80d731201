SPECIFICATION RSpec
INVARIANT Nested
INVARIANT Parted
INVARIANT RConforms
CHECK_DEADLOCK FALSE
