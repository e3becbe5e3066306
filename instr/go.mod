module axverif/instr

go 1.21
