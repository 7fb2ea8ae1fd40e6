module instr

go 1.26
