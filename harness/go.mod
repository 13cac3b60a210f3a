module vh

go 1.21

require (
	github.com/mjarkk/yarql v0.0.0
	github.com/valyala/fastjson v1.6.3 // indirect
)

replace github.com/mjarkk/yarql => /repo
