"""Runtime monitors for bpmn-python: workload generators, independent oracles and the runner."""
