module verifreplay

go 1.20

require github.com/julioguillermo/godeep v0.0.0
