SPECIFICATION TSpec
CONSTANTS
  Slack = 20
  MaxEncoded = 4
CHECK_DEADLOCK FALSE
