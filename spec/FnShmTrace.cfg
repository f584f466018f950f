SPECIFICATION Spec
CONSTANTS
  Cap = 1000000
  Config <- TraceConfig
