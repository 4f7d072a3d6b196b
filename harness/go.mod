module vh
go 1.22
require github.com/singchia/geminio v0.0.0
replace github.com/singchia/geminio => /repo
require (
	github.com/golang/mock v1.6.0
	github.com/jumboframes/armorigo v0.2.5
	github.com/singchia/go-timer/v2 v2.2.1
	github.com/singchia/go-xtables v1.0.5
	github.com/singchia/yafsm v1.0.1
)
require (
	github.com/singchia/go-hammer v0.0.2-0.20220516141917-9d83fc02d653 // indirect
	golang.org/x/crypto v0.17.0 // indirect
	golang.org/x/sys v0.15.0 // indirect
)
