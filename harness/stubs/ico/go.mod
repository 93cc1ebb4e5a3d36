module github.com/donnie4w/ico

go 1.23
