SPECIFICATION Spec
CONSTANTS What = "plane" Deep = FALSE
INVARIANTS CullMeaning PlaneMeaning TriMeaning CameraMeaning OrthoMeaning
CHECK_DEADLOCK FALSE
