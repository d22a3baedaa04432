"""Runtime monitors for graphblas-algorithms (see /verif/DESIGN.md)."""
