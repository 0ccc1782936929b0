"""Static analysis framework for multisim (see /verif/DESIGN.md)."""
