from proofs.units.pda import make
unit = make(1)
