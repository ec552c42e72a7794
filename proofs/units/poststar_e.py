from proofs.units.poststar import make
unit = make(1)
