module verif

go 1.21

require (
	github.com/rveen/ogdl v0.0.0
	golang.org/x/text v0.3.8
)

replace github.com/rveen/ogdl => /repo
