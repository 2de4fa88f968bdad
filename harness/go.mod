module vh

go 1.27

require github.com/Redundancy/go-sync v0.0.0

require github.com/petar/GoLLRB v0.0.0-20190514000832-33fb24c13b99 // indirect

replace github.com/Redundancy/go-sync => /repo
