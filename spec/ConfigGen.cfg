SPECIFICATION CSpec
VIEW View
INVARIANTS BasesFine Local LevelFree Turned LevelMonotone
CHECK_DEADLOCK FALSE
