module github.com/indigo-web/indigo/verif

go 1.23

require (
	github.com/indigo-web/indigo v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/indigo-web/chunkedbody v0.1.0 // indirect
	github.com/indigo-web/iter v0.1.0 // indirect
	github.com/indigo-web/utils v0.6.2 // indirect
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)

replace github.com/indigo-web/indigo => /repo

replace github.com/indigo-web/utils => ./standins/utils

replace github.com/indigo-web/chunkedbody => ./standins/chunkedbody
