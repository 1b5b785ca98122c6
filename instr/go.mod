module verif.local/instr

go 1.24
