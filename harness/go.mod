module github.com/hedzr/store/zverif

go 1.26
