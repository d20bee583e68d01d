SPECIFICATION Spec
INVARIANT Stored
PROPERTY Local
CONSTANTS MaxN = 5
          Vals = {0, 1, 255}
