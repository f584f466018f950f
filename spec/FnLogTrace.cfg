SPECIFICATION Spec
VIEW View
CONSTANTS
  Cap = 1000000
  Config <- TraceConfig
