module verif/harness

go 1.22

require (
	github.com/shopspring/decimal v1.3.1
	github.com/sttp/goapi v0.0.0
)

require (
	github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20210930093333-01de314d7883 // indirect
	github.com/araddon/dateparse v0.0.0-20210429162001-6b43995a97de // indirect
	github.com/google/uuid v1.3.0 // indirect
	github.com/tevino/abool/v2 v2.1.0 // indirect
)

replace github.com/sttp/goapi => /repo
