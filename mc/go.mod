module verifmc

go 1.23

require (
	github.com/TopoSimplify/plugin v0.0.0
	github.com/intdxdt/geom v1.0.2
	github.com/intdxdt/iter v1.0.0
	github.com/intdxdt/mbr v1.0.0
)

replace github.com/TopoSimplify/plugin => /repo

require (
	github.com/intdxdt/algor v0.0.0-20171018025553-b04f84e486fd // indirect
	github.com/intdxdt/cmp v0.0.0-20171102110413-58dfeb370ea5 // indirect
	github.com/intdxdt/deque v0.0.0-20171102130235-3e5a69a6fa23 // indirect
	github.com/intdxdt/fan v1.0.1 // indirect
	github.com/intdxdt/heap v0.0.0-20180830201411-bfa61463ae8b // indirect
	github.com/intdxdt/math v1.0.0 // indirect
	github.com/intdxdt/robust v1.0.0 // indirect
	github.com/intdxdt/rtree v1.0.0 // indirect
	github.com/intdxdt/side v0.0.0-20180508194449-6a1b9bdb46ba // indirect
	github.com/intdxdt/sset v0.0.0-20180716051722-847da91b3696 // indirect
	github.com/intdxdt/subsset v0.0.0-20180704174917-aa7d221d338e // indirect
	github.com/intdxdt/vect v0.0.0-20191214134333-3fe6478de6f9 // indirect
	github.com/naoina/go-stringutil v0.1.0 // indirect
	github.com/naoina/toml v0.1.1 // indirect
github.com/paulmach/go.geojson v1.4.0 // indirect
github.com/franela/goblin v0.0.0-20210113153425-413781f5e6c8 // indirect
github.com/intdxdt/fileutil v0.0.1 // indirect
)
