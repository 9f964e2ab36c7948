module verif/instrument

go 1.20
