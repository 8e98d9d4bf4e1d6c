"""Runtime-monitoring framework for corrct: seeded workloads, monitors, oracles."""
