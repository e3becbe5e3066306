module axverif

go 1.27

require github.com/axgrid/axutils v0.0.0

replace github.com/axgrid/axutils => ../repo
