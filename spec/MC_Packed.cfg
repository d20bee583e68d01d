SPECIFICATION Spec
INVARIANT Stored
PROPERTY Local
CONSTANTS MaxN = 3
          Vals = {0, 255}
