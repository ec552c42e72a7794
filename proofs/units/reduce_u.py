from proofs.units.reduce import make
unit = make(0)
