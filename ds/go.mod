module verif.local/ds

go 1.23
