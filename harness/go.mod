module leavesverif

go 1.23

require (
	github.com/dmitryikh/leaves v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/dmitryikh/leaves => /repo
