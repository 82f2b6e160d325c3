module verif/mc

go 1.24

require github.com/timtadh/data-structures v0.0.0

replace github.com/timtadh/data-structures => /repo
