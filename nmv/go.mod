module nmv

go 1.23

require github.com/shohruhadham/nanomux v0.0.0

replace github.com/shohruhadham/nanomux => /repo
