SPECIFICATION Spec
INVARIANT Laws
CONSTANTS N = 2
 Hi = 3
