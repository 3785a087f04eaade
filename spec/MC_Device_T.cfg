SPECIFICATION Spec
CONSTANTS MaxRegWrites = 5
          MaxMemWrites = 4
INVARIANTS InvReg InvMem InvRead InvBlock
CHECK_DEADLOCK FALSE
