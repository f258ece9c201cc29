module verif.local/harness

go 1.26
