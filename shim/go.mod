module verif.local/shim

go 1.22
