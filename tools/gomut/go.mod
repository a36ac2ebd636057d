module verif/gomut

go 1.21
