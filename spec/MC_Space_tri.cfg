SPECIFICATION Spec
CONSTANTS What = "tri" Deep = FALSE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
