SPECIFICATION Spec
CONSTANTS MaxRegWrites = 3
          MaxMemWrites = 2
INVARIANTS InvReg InvMem InvRead InvBlock
CHECK_DEADLOCK FALSE
