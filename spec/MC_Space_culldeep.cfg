SPECIFICATION Spec
CONSTANTS What = "cull" Deep = TRUE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
