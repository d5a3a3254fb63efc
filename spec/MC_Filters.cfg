SPECIFICATION Spec
INVARIANTS Constants Circle Slope Exponential Pulses Limits
