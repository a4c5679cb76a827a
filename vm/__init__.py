"""Runtime-monitoring framework for qiskit-ignis (see DESIGN.md)."""
