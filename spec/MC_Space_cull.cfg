SPECIFICATION Spec
CONSTANTS What = "cull" Deep = FALSE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
