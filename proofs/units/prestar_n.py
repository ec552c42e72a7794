from proofs.units.prestar import make
unit = make(0)
