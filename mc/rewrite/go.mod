module rewrite

go 1.20
