module xcoremc

go 1.21

require (
	github.com/webability-go/xcore v0.0.0
	github.com/webability-go/xcore/v2 v2.0.0
	golang.org/x/text v0.3.8
)

replace github.com/webability-go/xcore => /repo

replace github.com/webability-go/xcore/v2 => /repo/v2
