SPECIFICATION Spec
CONSTANTS StartOf <- WStart StepOf <- WStep
