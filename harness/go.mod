module verif

go 1.25

require (
	github.com/barnex/bruteray v0.0.0
	golang.org/x/exp v0.0.0-20190912063710-ac5d2bfcbfe0
	golang.org/x/image v0.0.0-20190910094157-69e4b8554b2a
	golang.org/x/mobile v0.0.0-20190910184405-b558ed863381
)

replace github.com/barnex/bruteray => /repo
