SPECIFICATION Spec
CONSTANTS StartOf <- MdStart StepOf <- MdStep
