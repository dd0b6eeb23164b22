SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed Laws
PROPERTIES Frame
CHECK_DEADLOCK FALSE
