module verif/driver

go 1.23

require github.com/adamcolton/parlex v0.0.0

replace github.com/adamcolton/parlex => /repo
