SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
PROPERTY Refused
PROPERTY Frame
PROPERTY Longer
