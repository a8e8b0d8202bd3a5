module verif/harness

go 1.17

require github.com/jchv/cleansheets v0.0.0

replace github.com/jchv/cleansheets => /repo
