module github.com/m4tthewde/gov1

go 1.19
