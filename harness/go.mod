module verifharness

go 1.20

require github.com/dmitryikh/leaves v0.0.0

replace github.com/dmitryikh/leaves => /repo
