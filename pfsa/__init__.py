"""Static analysis of PetroFit: value numbering, aliasing/effects and unit typing over the source."""
