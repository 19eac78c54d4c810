SPECIFICATION Spec
CONSTANTS
  P = 3
  MaxCount = 2
  Chunk = 1
  Method = "hypercube"
  Family = "lines"
INVARIANTS NoDeadlock Delivered InOrder Settled
