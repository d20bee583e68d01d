SPECIFICATION Spec
INVARIANT Laws
CONSTANTS N = 3
 Hi = 1
