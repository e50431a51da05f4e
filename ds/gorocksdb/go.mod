module github.com/tecbot/gorocksdb

go 1.18
