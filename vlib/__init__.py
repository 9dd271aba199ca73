"""Runtime monitors for ethframe/reparsec.  See /verif/DESIGN.md."""
