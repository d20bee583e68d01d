SPECIFICATION Spec
CONSTANTS What = "ortho" Deep = FALSE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
