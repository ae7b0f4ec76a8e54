SPECIFICATION Spec
CONSTANTS
  StartOf <- SStart
  StepOf <- SStep
