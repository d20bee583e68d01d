SPECIFICATION Spec
INVARIANT Laws
CONSTANTS N = 4
 Hi = 0
