module verif.sim/rt

go 1.19
