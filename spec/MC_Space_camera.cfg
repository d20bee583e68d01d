SPECIFICATION Spec
CONSTANTS What = "camera" Deep = FALSE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
