module torture

go 1.26.5
