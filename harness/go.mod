module gevulotverif

go 1.26

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/hired/gevulot v0.0.0
	github.com/lib/pq v1.2.0
	github.com/sirupsen/logrus v1.4.2
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/sync v0.0.0-20190911185100-cd5d95a43a6e // indirect
	golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect
)

replace github.com/hired/gevulot => /repo
