module verif/tools/mutate

go 1.24
