module verif/harness

go 1.16

require (
	github.com/RH12503/Triangula v0.0.0
	github.com/dgryski/go-pcgr v0.0.0-20190219145045-9a7ede0ca611
	github.com/fogleman/delaunay v0.0.0-20180910191513-63f09b4c883d
)

replace github.com/RH12503/Triangula => /repo
