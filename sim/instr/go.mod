module verif.sim/instr

go 1.21
