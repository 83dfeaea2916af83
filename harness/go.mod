module symh

go 1.21

require github.com/signintech/pdft v0.0.0

replace github.com/signintech/pdft => /repo
