"""Property-based verification of pyOTF: see /verif/DESIGN.md."""
