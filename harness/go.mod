module vmon

go 1.23

require github.com/jtejido/linear v0.0.0

replace github.com/jtejido/linear => /repo
