SPECIFICATION Spec
CONSTANTS StartOf <- DStart StepOf <- DStep
