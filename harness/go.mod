module verif

go 1.21

require github.com/mottla/go-AlgebraicProgram-SNARK v0.0.0

replace github.com/mottla/go-AlgebraicProgram-SNARK => /repo
