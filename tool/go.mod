module simtool

go 1.24
