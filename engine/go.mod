module jv

go 1.26.0

require golang.org/x/tools v0.52.0
